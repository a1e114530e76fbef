from refbackend import *


def prims(r):
    for fw in FWS:
        B = be(fw, 1)
        for dbl in (False, True) if fw in ('numpy', 'torch') else (False,):
            for b, _ in shapes(r, 1):
                for k in (1, 2, 3, 4, 5, 8):
                    for q in (1, 2, 3, 4):
                        x = rnd(r, b + (k * q,), True, dbl)
                        at('%s subsample_fourier shape=%s k=%d double=%s' % (fw, x.shape, k, dbl))
                        same(take(fw, B.subsample_fourier(give(fw, x), k), True), x.reshape(b + (k, q)).mean(-2))
                        rejected(lambda: B.subsample_fourier(give(fw, x.real.copy()), k), ('TypeError',))
                yield
                for N in (1, 2, 3, 5, 8):
                    for a in range(N + 2):
                        for c in range(N + 2):
                            x = rnd(r, (2, 1, N), False, dbl)
                            for kw in ({}, {'mode': 'reflect'}, {'mode': 'constant'}):
                                at('%s pad N=%d left=%d right=%d %s' % (fw, N, a, c, kw))
                                f = lambda: take(fw, B.pad(give(fw, x, unit=False), a, c, **kw), False)
                                if kw.get('mode') == 'constant':
                                    same(f(), np.pad(x, ((0, 0), (0, 0), (a, c))))
                                elif a >= N or c >= N:
                                    rejected(f, ('ValueError',))
                                else:
                                    same(f(), x[..., [refl(t, N) for t in range(-a, N + c)]])
                    for i0 in range(N):
                        for i1 in range(i0 + 1, N + 1):
                            x = rnd(r, b + (N,), False, dbl)
                            at('%s unpad shape=%s [%d, %d)' % (fw, x.shape, i0, i1))
                            same(to_np(B.unpad(give(fw, x), i0, i1)), x[..., i0:i1])
                    at('%s average_global shape=%s' % (fw, b + (N,)))
                    x = rnd(r, b + (N,), False, dbl)
                    same(take(fw, B.average_global(give(fw, x)), False), x.sum(-1, keepdims=True), 1e-3)
                    rejected(lambda: B.average_global(give(fw, rnd(r, b + (N,), True, dbl))), ('TypeError',))
                    yield
        for n in (1, 2, 4):
            xs = [rnd(r, (2, 3, 5), False, False) for _ in range(n)]
            for d in (0, 1, 2, 3, -1, -2):
                at('%s stack of %d along %d' % (fw, n, d))
                same(to_np(B.stack([give(fw, x, unit=False) for x in xs], d)), np.stack(xs, d))
        for F in (1, 2, 5):
            for N in (1, 3, 4):
                x = rnd(r, (2, 1, F, N), False, False)
                at('%s pad_frequency F=%d' % (fw, F))
                for p in (0, 1, 4):
                    y = rnd(r, (2, 1, N, F), False, False)
                    g = give(fw, y) if fw != 'torch' else give(fw, y)
                    same(take(fw, B.pad_frequency(g, p), False), np.pad(y, ((0, 0),) * 3 + ((0, p),)))
                for cx in (False, True):
                    at('%s swap_time_frequency F=%d N=%d complex=%s' % (fw, F, N, cx))
                    y = rnd(r, (2, 1, F, N), cx, False)
                    same(take(fw, B.swap_time_frequency(give(fw, y)), cx), np.swapaxes(y, -1, -2))
                for n1, st in ((F - 1, 1), (F - 1, 2), (0, 1), (F - 1, 3)):
                    at('%s unpad_frequency F=%d n1_max=%d stride=%d' % (fw, F, n1, st))
                    if fw == 'torch':
                        y = rnd(r, (2, 1, F, N), False, False)
                        same(to_np(B.unpad_frequency(give(fw, y, unit=False), n1, st)), y[:, :, :1 + n1 // st])
                    else:
                        same(to_np(B.unpad_frequency(give(fw, x), n1, st)), x[:, :, :1 + n1 // st])
                at('%s split_frequency_axis F=%d N=%d' % (fw, F, N))
                rows = B.split_frequency_axis(give(fw, x[:, 0] if fw == 'torch' else x))
                check(len(rows) == F, common.CURRENT + ': %d rows' % len(rows))
                for i, w in enumerate(rows):
                    same(take(fw, w, False), (x[:, 0] if fw == 'torch' else x)[..., i:i + 1, :])
        yield


def sweep():
    r = np.random.RandomState(SEED)
    while left() > 0:
        yield from prims(r)
        yield from transforms(1, r, ('rfft', 'cfft', 'ifft', 'irfft'))
        yield from common_checks(1, r)
run(sweep)
