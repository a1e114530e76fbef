from refbackend import *


def prims(r):
    for fw in FWS:
        B = be(fw, 2)
        for dbl in (False, True) if fw in ('numpy', 'torch') else (False,):
            for k in (1, 2, 3, 4):
                for q in (1, 2, 3):
                    for s in (1, 2, 4):
                        for b in ((2,), (1,), (2, 3), ()):
                            if fw != 'torch' and len(b) != 1:
                                continue
                            x = rnd(r, b + (k * q, k * s), True, dbl)
                            at('%s subsample_fourier shape=%s k=%d' % (fw, x.shape, k))
                            same(take(fw, B.subsample_fourier(give(fw, x), k), True), x.reshape(b + (k, q, k, s)).mean((-4, -2)))
                            rejected(lambda: B.subsample_fourier(give(fw, x.real.copy()), k))
                yield
            for M in (1, 2, 3, 4, 6):
                for N in (2, 3, 5):
                    pm = [(a, c) for a in range(M) for c in range(M)] + ([(M, M)] if M > 1 else [])
                    pn = [(a, c) for a in range(N) for c in range(N)] + [(N, N)]
                    r.shuffle(pm)
                    r.shuffle(pn)
                    for p in sorted(pm[:4] + [q for q in pm if q == (M, M)]):
                        for q in sorted(pn[:4] + [v for v in pn if v == (N, N)]):
                            for b in ((2,), (), (2, 2)):
                                if fw in ('numpy', 'jax') and len(b) != 1:
                                    continue
                                at('%s Pad %s + %s of an image %s' % (fw, p, q, b + (M, N)))
                                x = rnd(r, b + (M, N), False, dbl)
                                y = take(fw, B.Pad(list(p + q), (M, N))(give(fw, x, unit=False)), False)
                                w = x[..., [refl(t, M) for t in range(-p[0], M + p[1])], :][..., [refl(t, N) for t in range(-q[0], N + q[1])]]
                                same(y, w)
                    yield
            for M, N in ((3, 3), (4, 6), (5, 3)):
                for b in ((2,), (), (2, 3)):
                    at('%s unpad shape=%s' % (fw, b + (M, N)))
                    x = rnd(r, b + (M, N), False, dbl)
                    same(to_np(B.unpad(give(fw, x))), x[..., 1:-1, 1:-1])
        for n in (1, 2, 5):
            at('%s stack of %d' % (fw, n))
            xs = [rnd(r, (2, 3, 5), False, False) for _ in range(n)]
            same(to_np(B.stack([give(fw, x, unit=False) for x in xs])), np.stack(xs, 1))
        yield


def sweep():
    r = np.random.RandomState(SEED)
    while left() > 0:
        yield from prims(r)
        yield from transforms(2, r, ('rfft', 'ifft', 'irfft'))
        yield from common_checks(2, r)
run(sweep)
