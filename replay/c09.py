from refbackend import *


def prims(r):
    for fw in FWS:
        B = be(fw, 3)
        for dbl in (False, True) if fw in ('numpy', 'torch') else (False,):
            for b, d in shapes(r, 3, 4):
                x, m = rnd(r, b + d, True, dbl), np.abs(rnd(r, b + d, False, dbl))
                at('%s modulus_rotation shape=%s' % (fw, b + d))
                same(take(fw, B.modulus_rotation(give(fw, x), None), False), np.abs(x))
                gx, gm = give(fw, x), give(fw, m)
                same(take(fw, B.modulus_rotation(gx, gm), False), np.sqrt(np.abs(x) ** 2 + m ** 2))
                same(take(fw, gx, True), x)
                same(take(fw, gm, False), m)
                yield
            for n in (1, 2, 3):
                d = tuple(r.randint(1, 5, 3))
                x = np.abs(rnd(r, (n,) + d, False, dbl)) + np.float32(.1)
                for qs in ([.5, 1, 2], [2.], [1., .5], [3, 2, 1.5, .5], (2, 1)):
                    at('%s compute_integrals shape=%s powers=%s' % (fw, x.shape, qs))
                    same(to_np(B.compute_integrals(give(fw, x), qs)), np.stack([(x ** q).sum((1, 2, 3)) for q in qs], -1).astype('float32'), 1e-3)
                yield
        for n in (1, 2, 3):
            for L in (0, 1, 2, 3):
                for P in (1, 3):
                    at('%s stack %d paths L=%d powers=%d' % (fw, n, L, P))
                    xs = [r.randn(2, P).astype('float32') for _ in range(n * (L + 1))]
                    same(to_np(B.stack([give(fw, x, unit=False) for x in xs], L)), np.stack(xs, 1).reshape(2, n, L + 1, P))
        yield


def sweep():
    r = np.random.RandomState(SEED)
    while left() > 0:
        yield from prims(r)
        yield from transforms(3, r, ('rfft', 'ifft'))
        yield from common_checks(3, r)
run(sweep)
