from refbackend import *
import torch


def one(r, dim, shape, dbl, zeros):
    x = rnd(r, shape + (2,), False, dbl)
    if zeros == 'all':
        x[...] = 0
    elif zeros == 'some':
        x.reshape(-1, 2)[r.rand(x.size // 2) < .4] = 0
    elif zeros == 'part':
        x[r.rand(*x.shape) < .4] = 0
    elif zeros == 'tiny':
        x *= r.choice([1e-3, 1e-6, 1e-9, 1e-12], size=x.shape[:-1] + (1,)).astype(x.dtype)
    at('torch %dD modulus of a tensor of shape %s, %s zeros, double=%s' % (dim, x.shape, zeros, dbl))
    t = torch.from_numpy(x.copy()).requires_grad_(True)
    m = be('torch', dim).modulus(t)
    ref = np.sqrt(x[..., 0].astype('float64') ** 2 + x[..., 1].astype('float64') ** 2)
    y = to_np(m)
    check(y.shape == shape + (1,), lambda: common.CURRENT + ': shape %s' % (y.shape,))
    ok = np.abs(y[..., 0] - ref) <= (1e-10 if dbl else 1e-5) * ref
    check(bool(np.all(ok)), lambda: common.CURRENT + ': modulus %s instead of %s' % (y[..., 0][~ok].ravel()[:3], ref[~ok].ravel()[:3]))
    for turn in range(2):
        g = rnd(r, shape + (1,), False, dbl)
        G, = torch.autograd.grad(m, t, torch.from_numpy(g.copy()), retain_graph=True)
        G = G.numpy()
        with np.errstate(all='ignore'):
            w = np.where(ref[..., None] > 0, g * x / ref[..., None], 0)
        ok = np.abs(G - w) <= (1e-9 if dbl else 1e-4) * np.abs(w)
        check(G.shape == w.shape and bool(np.all(ok)), lambda: common.CURRENT + ': gradient %s instead of %s' % (G[~ok].ravel()[:3] if G.shape == w.shape else G.shape, w[~ok].ravel()[:3] if G.shape == w.shape else w.shape))
        check(bool(np.array_equal(t.detach().numpy(), x)), lambda: common.CURRENT + ': the input is modified')


def sweep():
    r = np.random.RandomState(SEED)
    while left() > 0:
        for dim in (1, 2, 3):
            for n in range(6):
                for s in ('none', 'all', 'some', 'part', 'tiny'):
                    for dbl in (False, True):
                        # sizes of 1 and 2 included: broadcasting accidents
                        one(r, dim, tuple(int(v) for v in r.randint(1, 5, n)), dbl, s)
                        if n:
                            one(r, dim, (2,) * n, dbl, s)
                yield
run(sweep)
