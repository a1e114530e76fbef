from ref2d import *
import ref3d, common


class Other:
    pass


def junk(fe):
    yield 'None', None
    yield 'object', Other()
    if fe != 'tensorflow':
        yield 'string', 'abc'
        yield 'int', 3
        yield 'list', [[0.] * 8] * 8
        yield 'tuple', (1., 2.)
        yield 'dict', {}
    if fe == 'torch':
        yield 'numpy array', np.zeros((4, 8, 8, 8), 'float32')


def outcome(f):
    try:
        f()
    except Exception as e:
        return type(e).__name__
    return 'accepted'


def obj(dim, fe, k):
    return (make if dim == 2 else ref3d.make)(fe, **k)


def sweep():
    r = random.Random(SEED)
    first = True
    while left() > 0:
        for fe in ('numpy', 'torch', 'jax', 'tensorflow'):
            for dim in (2, 3):
                ks = [dict(J=2, shape=(r.randint(4, 9), r.randint(4, 9)), L=2, pre_pad=p, out_type=o) for p in (False, True) for o in ('array', 'list')] if dim == 2 \
                    else [dict(J=1, shape=tuple(r.randint(3, 6) for _ in range(3)), L=1, rotation_covariant=b) for b in (True, False)]
                for k in ks:
                    S = obj(dim, fe, k)
                    size = k['shape'] if not k.get('pre_pad') else tuple((n // 4 + 2) * 4 for n in k['shape'])
                    for nm, v in junk(fe):
                        for call in (lambda: S(v), lambda: S.scattering(v)):
                            at(dim, 'D', fe, k, nm, 'input')
                            o = outcome(call)
                            check(o == 'TypeError', common.CURRENT + ': %s instead of TypeError' % o)
                            yield
                    sizes = [tuple(n + d * (i == a) for i, n in enumerate(size)) for a in range(dim) for d in (-1, 1, 2)]
                    if dim == 2:
                        sizes += [k['shape'], tuple((n // 4 + 2) * 4 for n in k['shape']), size[::-1]]
                    else:
                        sizes += [size[::-1], size[1:] + size[:1]]
                    for s in sizes + [size]:
                        for b in ((), (2,), (1, 2)):
                            at(dim, 'D', fe, k, 'input of shape', b + s)
                            o = outcome(lambda: S(tensor(fe, np.random.RandomState(0).randn(*(b + s)))))
                            w = 'accepted' if s == size else 'RuntimeError'
                            check(o == w, common.CURRENT + ': %s instead of %s' % (o, w))
                            yield
                    for rank in range(dim):
                        for s in ([size[-rank:]] if rank else [()]):
                            at(dim, 'D', fe, k, 'input of shape', s)
                            o = outcome(lambda: S(tensor(fe, np.zeros(s))))
                            check(o == 'RuntimeError', common.CURRENT + ': %s instead of RuntimeError' % o)
                            yield
                    if k.get('pre_pad'):
                        at('2D', fe, k)
                        x = tensor(fe, np.random.RandomState(0).randn(1, *size))
                        P = to_np(S.pad(x))
                        check(np.array_equal(P.reshape(-1), to_np(x).reshape(-1)), common.CURRENT + ': the pre-padded input is not used as is')
                if dim == 2:
                    for v in ('dict', '', None, 'Array', 'matrix', 'arraylist', 'lis'):
                        for pp in (False, True):
                            at('2D', fe, 'out_type=%r pre_pad=%s' % (v, pp))
                            o = outcome(lambda: make(fe, J=1, shape=(4, 4), L=2, out_type=v, pre_pad=pp)(tensor(fe, np.zeros((8, 8) if pp else (4, 4)))))
                            check(o in ('RuntimeError', 'ValueError'), common.CURRENT + ': %s' % o)
                    for J in (1, 2, 3, 4):
                        for s in ((2 ** J - 1, 40), (40, 2 ** J - 1), (2 ** J, 2 ** J - 1), (1, 1), (2 ** J // 2, 2 ** J)):
                            for pp in (False, True):
                                at('2D', fe, 'J=%d shape=%s pre_pad=%s' % (J, s, pp))
                                o = outcome(lambda: make(fe, J=J, shape=s, L=1, pre_pad=pp))
                                check(o in ('RuntimeError', 'ValueError'), common.CURRENT + ': an image smaller than 2^J gives ' + o)


run(sweep)
