from ref1d import *
from kymatio.scattering1d.frontend.base_frontend import ScatteringBase1D
from kymatio.scattering1d.utils import compute_padding, compute_border_indices


def geo(J, N, T):
    at('Scattering1D(J=%s, shape=%s, T=%s)' % (J, N, T))
    import common
    d = common.CURRENT
    S = ScatteringBase1D(J, N, 1, T)
    S.build()
    P, l, r = S._N_padded, S.pad_left, S.pad_right
    check(P >= N and P & (P - 1) == 0, '%s: padded length %s' % (d, P))
    check(0 <= l < N and 0 <= r < N and l + r == P - N and abs(l - r) <= 1, '%s: pads %s, %s for padded length %s' % (d, l, r, P))
    Tv = 2 ** J if T in (None, 'global', 0) else T
    for j in range(max(J, fl2(Tv)) + 1):
        check(j in S.ind_start and j in S.ind_end, '%s: no crop interval at resolution %d' % (d, j))
        a, b = S.ind_start[j], S.ind_end[j]
        check(a == -(-l // 2 ** j) and b == -(-(l + N) // 2 ** j), '%s: crop interval [%s, %s) at 2^%d' % (d, a, b, j))
        check(0 <= a < b <= P // 2 ** j, '%s: crop interval [%s, %s) at 2^%d outside %d' % (d, a, b, j, P // 2 ** j))


def small():
    for N in range(1, 70):
        for P in range(1, 220):
            at('compute_padding(%d, %d)' % (P, N))
            try:
                l, r = compute_padding(P, N)
                check(P >= N and l >= 0 and r >= 0 and l + r == P - N and abs(l - r) <= 1 and max(l, r) < N, 'compute_padding(%d, %d) = %s' % (P, N, (l, r)))
            except ValueError:
                check(P < N or P - N >= 2 * N - 1, 'compute_padding(%d, %d) rejected' % (P, N))
            yield
    for lt in range(0, 7):
        for J in range(0, 7):
            for i0 in range(0, 20):
                for i1 in range(i0, 40, 3):
                    at('compute_border_indices', lt, J, i0, i1)
                    s, e = compute_border_indices(lt, J, i0, i1)
                    for j in range(max(lt, J) + 1):
                        check(s.get(j) == -(-i0 // 2 ** j) and e.get(j) == -(-i1 // 2 ** j), 'compute_border_indices(%d, %d, %d, %d) at %d: %s %s' % (lt, J, i0, i1, j, s.get(j), e.get(j)))
            yield


def sweep():
    for N in hints('N'):
        for J in hints('J'):
            if 1 <= J and 2 ** J <= N <= 2 ** 16:
                geo(J, N, None)
                yield
    for N in range(2, 140):
        for J in range(1, 8):
            if 2 ** J <= N:
                for T in [None, 1, N, N - 1, 'global', 0, 1.5, N / 2 + .25]:
                    if T in (None, 'global', 0) or 1 <= T <= N:
                        geo(J, N, T)
                        yield
    while True:
        J = rng.randint(1, 12)
        N = rng.choice([2 ** J, 2 ** J + 1, rng.randint(2 ** J, 2 ** (J + 3)), rng.randint(2 ** J, 2 ** 15)])
        geo(J, N, rng.choice([None, 'global', 0, rng.randint(1, N), rng.uniform(1, N)]))
        yield


def full():
    # the whole transform on a few configurations
    for c in configs(30):
        at('Scattering1D', c)
        S = None
        try:
            S = make('numpy', J=c['J'], shape=c['N'], Q=c['Q'], T=c['T'], stride=c['stride'], out_type='list')
        except AssertionError:
            continue
        S(np.random.randn(c['N']))
        yield


run(small, full, sweep)
