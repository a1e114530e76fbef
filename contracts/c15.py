"""C15: joint time-frequency scattering: which paths exist, their labels, values and resolutions."""
import z3
from vc import smt
from vc.values import *
from vc.atensor import *
from vc.spec import match, split, eq_obl
from vc.smt import pow2, cdivp
from vc.harness import Case, expect_raise
from vc import binders
from . import c1d
from .c1d import *
from .c02 import cdiv, make_input

SWAP = z3.Function('swap', T, T)
PADF = z3.Function('pad_rows', T, smt.Int, T)
UNPADF = z3.Function('unpad_rows', T, smt.Int, T)
ROW = z3.Function('row', T, smt.Int, T)
PHI0F = z3.Function('phi_fr[]', smt.Int, T)        # width F
PHI1F = z3.Function('psi_fr_0[]', smt.Int, T)      # width 2^J_fr, n_fr = 0
PSIF = {1: z3.Function('psi_fr_pos[]', smt.Int, smt.Int, T), -1: z3.Function('psi_fr_neg[]', smt.Int, smt.Int, T)}
XIF = {1: z3.Function('xi_fr_pos[]', smt.Int, smt.Real), -1: z3.Function('xi_fr_neg[]', smt.Int, smt.Real)}
JF = {1: z3.Function('j_fr_pos[]', smt.Int, smt.Int), -1: z3.Function('j_fr_neg[]', smt.Int, smt.Int)}
SGF = {1: z3.Function('sigma_fr_pos[]', smt.Int, smt.Real), -1: z3.Function('sigma_fr_neg[]', smt.Int, smt.Real)}
NP = z3.Int('n_psi_fr')


def name_of(e):
    return e.decl().name() if z3.is_app(e) else ''


def swap(e):
    return e.arg(0) if name_of(e) == 'swap' else SWAP(e)


def elementwise(f, e):
    """elementwise maps commute with the exchange of the axes"""
    return SWAP(f(e.arg(0))) if name_of(e) == 'swap' else f(e)


def stk(I, items):
    """tensor whose rows are the elements of the family, in order"""
    x = [s for s in items if not (isinstance(s, For) and not s.body)]
    if len(x) != 1 or not isinstance(x[0], For) or len(x[0].body) != 1:
        raise Unsupported('stack of %r' % (items,))
    f, b = x[0], x[0].body[0]
    if isinstance(b, Cond):
        alts = [(g, l[0]) for g, l in b.alts if l]
        if any(len(l) > 1 or (l and not isinstance(l[0], AT)) for _, l in b.alts) or not alts:
            raise Unsupported('stack of %r' % (items,))
        guard = z3.Or(*[g for g, _ in alts]) if len(alts) > 1 else alts[0][0]
        e = alts[-1][1].e
        for g, v in reversed(alts[:-1]):
            e = z3.If(g, v.e, e)
    elif isinstance(b, AT):
        guard, e = z3.BoolVal(True), b.e
    else:
        raise Unsupported('stack of %r' % (items,))
    return binders.atom('stk', [f.var], [guard, e], [f.lo, f.hi], T)


def stk_terms(e, acc=None, seen=None):
    acc = [] if acc is None else acc
    seen = set() if seen is None else seen
    if e.get_id() in seen:
        return acc
    seen.add(e.get_id())
    if binders.is_atom(e) and binders.TABLE[name_of(e)].op == 'stk':
        acc.append(e)
    if z3.is_app(e):
        for c in e.children():
            stk_terms(c, acc, seen)
    return acc


def extensionality(I, g, w):
    """two stacks with equal rows are equal"""
    for a in stk_terms(g):
        for b in stk_terms(w):
            if a.eq(b):
                continue
            A, ea, ba, va = binders.parts(a)
            B, eb, bb, vb = binders.parts(b)
            if not I.entails(z3.And(ea[0] == eb[0], ea[1] == eb[1])):
                continue
            v = I.freshvar('row')
            s = lambda t, o: z3.substitute(t, (o[0], v))
            ok = [True]

            def body():
                ga, gb = s(ba[0], va), s(bb[0], vb)
                ok[0] = I.entails(ga == gb)
                if ok[0]:
                    split(I, ga, lambda: ok.__setitem__(0, I.entails(s(ba[1], va) == s(bb[1], vb))))
            I.binders.append(v)
            try:
                split(I, z3.And(ea[0] <= v, v < ea[1]), body)
            finally:
                I.binders.pop()
            if ok[0]:
                I.assume(a == b)


def differences(a, b, out, seen):
    """pairs of subterms whose equality implies a == b (congruence)"""
    k = (a.get_id(), b.get_id())
    if a.eq(b) or k in seen:
        return
    seen.add(k)
    if a.sort() == T and z3.is_app(a) and z3.is_app(b) and a.decl().eq(b.decl()) and a.num_args() and not binders.is_atom(a):
        for x, y in zip(a.children(), b.children()):
            differences(x, y, out, seen)
    else:
        out.append((a, b))


class JBackend(ABackend):
    """the backend contract of C07 for tensors with one more axis: (batch, 1, rows, time)"""

    def p_modulus(self, I, x):
        self.need(I, x, True, 'modulus')
        return AT(elementwise(MOD, x.e), x.shape, False)

    def p_stack(self, I, arrays, dim=None):
        if isinstance(dim, int) and dim >= 0:
            items = I.domain(arrays)
            s = stack_items(I, items, 2)       # emptiness, equal shapes
            if len(s.shape) != dim + 2 or any(isinstance(d, Block) for d in s.shape):
                raise Unsupported('stack along axis %d of %r' % (dim, s.shape))
            cx = first_leaf(items).cx
            return AT(stk(I, items), s.shape, cx)
        return super().p_stack(I, arrays, dim)

    def p_swap_time_frequency(self, I, x):
        if not isinstance(x, AT):
            raise I.exc('TypeError', 'swap')
        return AT(swap(x.e), x.shape[:-2] + (x.shape[-1], x.shape[-2]), x.cx)

    def p_pad_frequency(self, I, x, padding):
        I.oblige('the frequency axis is not padded by a negative amount', ints(padding) >= 0, repr(padding))
        return AT(PADF(x.e, ints(padding)), x.shape[:-1] + (I.binop('Add', x.shape[-1], padding),), x.cx)

    def p_unpad_frequency(self, I, x, n1_max, n1_stride):
        r = rows_kept(I, x.shape[-2], n1_max, n1_stride)
        rows_lemma(I, x.shape[-2], n1_max, n1_stride)
        return AT(UNPADF(x.e, ints(r)), x.shape[:-2] + (r, x.shape[-1]), x.cx)

    def p_split_frequency_axis(self, I, x):
        i = I.freshvar('row')
        return VList([For(i, smt.iv(0), ints(x.shape[-2]), [AT(ROW(x.e, i), x.shape[:-2] + (1, x.shape[-1]), x.cx)])])

    def p_unpad(self, I, x, i0, i1):
        if isinstance(x, AT) and isinstance(x.shape[-1], int) and x.shape[-1] == 1 and i0 == 0 and i1 == 1:
            return AT(x.e, x.shape, x.cx)
        return super().p_unpad(I, x, i0, i1)


def first_leaf(items):
    from vc.builtins_model import collect_leaves
    ls = []
    collect_leaves(items, [], [], ls)
    return ls[0][2]


def rows_kept(I, rows, n1_max, stride):
    n = I.binop('Add', 1, I.fdiv(n1_max, stride))
    return mk(z3.If(ints(n) <= ints(rows), ints(n), ints(rows)), 'int')


def rows_lemma(I, rows, n1_max, stride):
    """instance of lemma `rows`: there is a row for every n1 = 0, stride, 2*stride, ... below n1_max"""
    full = I.binop('Mult', rows, stride)
    s, n = ints(stride), ints(n1_max)
    if I.entails(z3.And(s >= 1, n <= ints(full))):
        c = ceildiv(I, n, s)
        I.assume(z3.And(c <= ints(rows), c <= 1 + ints(I.fdiv(n1_max, stride))))


def lemma(I):
    n, s, A, q, r, c, d = z3.Ints('n s A q r c d')
    I.assume(z3.And(s >= 1, n == q * s + r, r >= 0, r < s, n + s - 1 == c * s + d, d >= 0, d < s))
    I.oblige('quotients are q and c', z3.And(n / s == q, (n + s - 1) / s == c))
    I.oblige('ceil(n/s) is q or q+1', z3.And(c >= q, c <= q + 1))
    I.oblige('ceil(n/s) <= A when n <= s A', z3.Implies(n <= s * A, c <= A))


# ---------------------------------------------------------------- filter banks
def fr_dict(I, xi, sigma, j, f, N, n=None):
    d = {'xi': xi, 'sigma': sigma, 'j': j, 'levels': SymSeq('levels_fr', smt.iv(1) if n is None else n, lambda k: FILTER(I, f(k), N, k))}
    return d


def factory(I, f, args, kwargs):
    vals = dict(zip(['N', 'J', 'Q', 'T', 'filterbank', '_reduction'], args))
    vals.update(kwargs)
    q = I.domain(vals['Q'])
    if len(q) == 2:
        I.time_args = vals
        return c1d.filter_factory_contract(I, f, args, kwargs)
    used(I, FB + 'scattering_filter_factory')
    N, J, W = vals['N'], vals['J'], vals['T']
    log2_T = I.call(I.natives['math'].attrs['floor'], [I.call(I.natives['math'].attrs['log2'], [W])])
    if len(q) == 0:
        I.fr_args0 = vals
        nlev = z3.Int('nlev_phi_fr')
        I.assume(nlev >= 1 + ints(log2_T))
        d = fr_dict(I, 0, Sym(z3.Real('sigma_phi_fr'), 'float'), log2_T, PHI0F, N, nlev)
        return (VDict(dict(d, N=N)),)
    I.fr_args = vals
    nlev = z3.Int('nlev_psi_fr0')
    I.assume(nlev >= 1 + ints(log2_T))
    phi = VDict(dict(fr_dict(I, 0, Sym(z3.Real('sigma_psi_fr0'), 'float'), log2_T, PHI1F, N, nlev), N=N))
    I.assume(NP >= 1)
    v = z3.Int('qfr_')
    segs = []
    for s in (1, -1):
        pos = XIF[s](v) > 0 if s == 1 else XIF[s](v) < 0
        c = 2 * XIF[s](v) * z3.ToReal(pow2(JF[s](v)))
        I.qfacts.append((v, smt.iv(0), NP, z3.And(pos, JF[s](v) >= 0, JF[s](v) <= ints(J) - 1, SGF[s](v) > 0, c < 1, c > -1)))
        i = I.freshvar('fr')
        segs.append(For(i, smt.iv(0), NP, [VDict(fr_dict(I, Sym(XIF[s](i), 'float'), Sym(SGF[s](i), 'float'), Sym(JF[s](i), 'int'), lambda k, i=i, s=s: PSIF[s](i, k), N))]))
    return (phi, VList(segs))


def setup(I):
    c1d.contracts_1d(I)
    I.contracts[FB + 'scattering_filter_factory'] = factory
    for m in ('register_filters', 'load_filters'):
        I.contracts['kymatio.scattering1d.frontend.torch_frontend:TimeFrequencyScatteringTorch.' + m] = noop(m)


CLS = {'numpy': ('kymatio.scattering1d.frontend.numpy_frontend', 'TimeFrequencyScatteringNumPy'),
       'jax': ('kymatio.scattering1d.frontend.jax_frontend', 'TimeFrequencyScatteringJax'),
       'torch': ('kymatio.scattering1d.frontend.torch_frontend', 'TimeFrequencyScatteringTorch'),
       'tensorflow': ('kymatio.scattering1d.frontend.tensorflow_frontend', 'TimeFrequencyScatteringTensorFlow')}


def build(I, frontend, tk, fk, out_type, fmt, st, sf):
    N, J, Jf = sym_int(I, 'N', 1), sym_int(I, 'J', 1), sym_int(I, 'J_fr', 1)
    I.assume(pow2(J.e) <= N.e)
    Q = (sym_int(I, 'Q1', 1), sym_int(I, 'Q2', 1))
    # the first-order bank has at most Q1 wavelets per octave over J+1 octaves
    I.assume(N1 <= (J.e + 1) * Q[0].e)
    nin = (J.e + 1) * Q[0].e
    kw = dict(J=J, J_fr=Jf, shape=N, Q=Q, Q_fr=sym_int(I, 'Q_fr', 1), out_type=out_type, format=fmt, backend=JBackend(frontend))
    P = dict(N=N, J=J, J_fr=Jf)
    for key, kd, alias, top in (('T', tk, 'T', N.e), ('F', fk, 'F', nin)):
        if kd == 'sym':
            t = z3.Real(alias) if key == 'T' else z3.Int(alias)
            I.assume(z3.And(t >= 1, t <= top))
            if key == 'F':
                I.assume(t <= pow2(Jf.e))
            kw[key] = Sym(t, 'float' if key == 'T' else 'int')
        else:
            kw[key] = {'None': None, 'global': 'global', '0': 0}[kd]
    lt = smt.flog2(reals(kw['T'])) if tk == 'sym' else J.e
    lf = smt.flog2(reals(kw['F'])) if fk == 'sym' else Jf.e
    P['ls'], P['lsf'] = lt, lf
    for on, nm, key, l in ((st, 'ls', 'stride', lt), (sf, 'lsf', 'stride_fr', lf)):
        if on:
            v = z3.Int(nm)
            I.assume(z3.And(v >= 0, v <= l))
            kw[key] = mk(pow2(v), 'int')
            P[nm] = v
    I.params = dict(P)
    C = I.get(*CLS[frontend])
    return I.call(C, [], kw), kw, P


# ---------------------------------------------------------------- specification
def mn(a, b):
    return z3.If(a <= b, a, b)


def spec(I, o, x, P, tk, fk, out_type, fmt):
    """segments of (labels, tensor): zeroth order, first order, second order"""
    N, J, Jf, ls, lsf = P['N'], P['J'], P['J_fr'], P['ls'], P['lsf']
    tl, fl = tk in ('None', 'sym'), fk in ('None', 'sym')
    p2 = pow2
    pl, pr, Np = ints(o.attrs['pad_left']), ints(o.attrs['pad_right']), ints(o.attrs['_N_padded'])
    Nf = ints(o.attrs['_N_padded_fr'])
    batch = x.shape[:-1]
    X0 = PAD(x.e, pl, pr)
    X = FFT(X0)
    crop = lambda e, res: UNPAD(e, cdiv(I, pl, res), cdiv(I, pl + N.e, res))
    ln = lambda res: z3.simplify(cdiv(I, pl + N.e, res) - cdiv(I, pl, res))

    # zeroth order
    if tl:
        S0, n0 = crop(RE(IFFT(SUB(CD(X, PHI(smt.iv(0))), p2(ls)))), ls), ln(ls)
    elif tk == 'global':
        S0, n0 = SUM(X0), smt.iv(1)
    else:
        S0, n0 = crop(X0, smt.iv(0)), ln(smt.iv(0))
    out = [(VDict(dict(n=(), j=(), order=0)), AT(S0, batch + (mk(n0, 'int'),), False))]

    n1 = z3.Int('spec_n1')
    j1 = J_OF[1](n1)
    k1 = mn(j1, ls) if tl else j1
    U1h = FFT(MOD(IFFT(SUB(CD(X, PSI[1](n1, smt.iv(0))), p2(k1)))))
    shp = (1, 1)

    def finish(Xs, n1_max, j2, spin, jf, filt, labels):
        """Xs: rows (before the filter along n1); spin: sign of the filter's frequency"""
        order = 1 if j2 is None else 2
        kf = mn(jf, lsf) if fl else jf
        Xf = FFT(PADF(swap(Xs), Nf - n1_max))
        C = elementwise(MOD, swap(IFFT(SUB(CD(Xf, filt), p2(kf)))))
        # along time
        if tk == 'global':
            C = SUM(C)
        elif tl and order == 2:
            k = mn(j2, ls)
            C = RE(IFFT(SUB(CD(FFT(C), PHI(k)), p2(ls - k))))
        stride = p2(kf)
        # along frequency
        if spin != 0 and fk == 'global':
            C, stride = swap(SUM(swap(C))), n1_max
        elif spin != 0 and fl:
            k = mn(jf, lsf)
            C, stride = swap(RE(IFFT(SUB(CD(FFT(swap(C)), PHI0F(k)), p2(lsf - k))))), p2(lsf)
        # rows available before cropping: the padded axis at this stride
        if spin != 0 and fk == 'global':
            avail = smt.iv(1)
        else:
            lg = lsf if (spin != 0 and fl) else kf
            avail = floordiv(I, Nf, p2(lg))
        if not (fmt == 'joint' and out_type == 'array'):
            keep = 1 + floordiv(I, n1_max, stride)
            avail = z3.If(keep <= avail, keep, avail)
            C = UNPADF(C, avail)
        if tk == 'global':
            nt, cut = smt.iv(1), lambda e: e
        else:
            res = j2 if (tk == '0' and order == 2) else ls
            nt, cut = ln(res), lambda e: crop(e, res)
        lab = dict(labels, order=order, spin=spin, j_fr=(mk(jf, 'int'),))
        if fmt == 'joint':
            return [(VDict(dict(lab, n1_max=mk(n1_max, 'int'), n1_stride=mk(stride, 'int'))), AT(cut(C), batch + (mk(avail, 'int'), mk(nt, 'int')), False))]
        i = I.freshvar('i')
        cnt = ceildiv(I, n1_max, stride)
        return [For(i, smt.iv(0), cnt, [(VDict(dict(lab, n=(mk(i * stride, 'int'),) + lab['n'])), AT(cut(ROW(C, i)), batch + (mk(nt, 'int'),), False))])]

    def bank(mkpath, second):
        segs = list(mkpath(0, 0, Jf.e, PHI1F(smt.iv(0))))
        for s, off in ((1, 1),) + (((-1, 1 + NP),) if second else ()):
            m = I.freshvar('m')
            under(I, m, NP, lambda: segs.append(For(m, smt.iv(0), NP, mkpath(s, m + off, JF[s](m), PSIF[s](m, smt.iv(0))))))
        return segs

    # first order
    S1 = binders.atom('stk', [n1], [z3.BoolVal(True), RE(IFFT(SUB(CD(U1h, PHI(k1)), p2(ls - k1))))], [smt.iv(0), N1], T)
    out += bank(lambda s, nfr, jf, flt: finish(S1, N1, None, s, jf, flt, dict(n=(mk(nfr, 'int') if not isinstance(nfr, int) else nfr,), j=(-1,), n_fr=(mk(nfr, 'int') if not isinstance(nfr, int) else nfr,))), False)

    # second order
    n2 = I.freshvar('n2')
    j2 = J_OF[2](n2)

    def second():
        k2 = (mn(j2, ls) if tl else j2) - k1
        cnt = ints(I.seg_count([For(n1, smt.iv(0), N1, [Cond([(j1 < j2, [0]), (z3.Not(j1 < j2), [])])])], 0))
        Y2 = binders.atom('stk', [n1], [j1 < j2, IFFT(SUB(CD(U1h, PSI[2](n2, k1)), p2(k2)))], [smt.iv(0), N1], T)
        lab = lambda nfr: dict(n=(Sym(n2, 'int'), mk(nfr, 'int') if not isinstance(nfr, int) else nfr), j=(-1, Sym(j2, 'int')), n_fr=(mk(nfr, 'int') if not isinstance(nfr, int) else nfr,))
        body = []
        split(I, cnt > 0, lambda: body.extend(bank(lambda s, nfr, jf, flt: finish(Y2, cnt, j2, s, jf, flt, lab(nfr)), True)))
        out.append(For(n2, smt.iv(0), N2, [Cond([(cnt > 0, body), (z3.Not(cnt > 0), [])])]))
    under(I, n2, N2, second)
    return out


def under(I, v, n, thunk):
    I.binders.append(v)
    try:
        split(I, z3.And(v >= 0, v < n), thunk)
    finally:
        I.binders.pop()


def floordiv(I, a, b):
    return ints(I.fdiv(mk(a, 'int'), mk(b, 'int')))


def ceildiv(I, a, b):
    """length of range(0, a, b)"""
    return ints(I.fdiv(mk(a + b - 1, 'int'), mk(b, 'int')))


def tensor(I, nm, g, w):
    e, shape = w[1].e, w[1].shape
    if not isinstance(g, AT):
        I.oblige(nm + ': is a tensor', False, repr(g))
        return
    c = dims_eq(I, g.shape, shape)
    I.oblige(nm + ': shape', c is not None and (z3.And(*c) if c else True), '%r == %r' % (g.shape, shape))
    I.oblige(nm + ': kind', g.cx is False, '')
    extensionality(I, g.e, e)
    if g.e.eq(e):
        I.oblige(nm + ': value', True, str(e))
        return
    ps = []
    differences(g.e, e, ps, set())
    by_parts = z3.And(*[a == b for a, b in ps])
    I.oblige(nm + ': value', by_parts if len(ps) < 40 and I.entails(by_parts) else g.e == e, '%s == %s' % (g.e, e))


def leaf_dict(I, name, g, w):
    lab = w[0].items
    nm = '%s order %d' % (name, lab['order'])
    if not isinstance(g, VDict):
        I.oblige(nm + ': entry is a dictionary', False, repr(g))
        return
    for k, v in list(lab.items()) + [('coef', None)]:
        if k not in g.items:
            I.oblige('%s: entry has key %s' % (nm, k), False, repr(g))
            return
    for k, v in lab.items():
        eq_obl(I, '%s: label %s' % (nm, k), g.items[k], v)
    tensor(I, nm + ': coefficient', g.items['coef'], w)


def leaf_kv(I, name, g, w):
    if not isinstance(g, KV):
        I.oblige(name + ': keyed entry', False, repr(g))
        return
    nm = '%s order %d' % (name, w[0].items['order'])
    eq_obl(I, nm + ': key', g.k, w[0].items['n'])
    tensor(I, nm + ': coefficient', g.v, w)


def leaf_tensor(I, name, g, w):
    tensor(I, '%s order %d' % (name, w[0].items['order']), g, w)


def case(frontend, tk, fk, out_type, fmt, st=False, sf=False):
    def body(I):
        o, kw, P = build(I, frontend, tk, fk, out_type, fmt, st, sf)
        x = make_input(I, P['N'])
        nm = '%s %s(%s)' % (frontend, fmt, out_type)
        run = lambda: I.call(I.getattr(o, 'scattering'), [x])
        if out_type == 'array' and (tk == '0' or (fk == '0' and fmt == 'joint')):
            expect_raise(I, nm + ' without averaging', run, ['ValueError'])
            return
        got = run()
        want = spec(I, o, x, P, tk, fk, out_type, fmt)
        if out_type == 'list':
            match(I, nm, I.domain(got), want, leaf_dict)
        elif out_type == 'array':
            if fmt == 'joint':
                want = want[1:]
            if not isinstance(got, AStack):
                I.oblige(nm + ': returns the stacked coefficients', False, repr(got))
                return
            ax = 3 if fmt == 'joint' else 2
            I.oblige(nm + ': position of the path axis', got.axis == ax, 'axis -%d' % got.axis)
            match(I, nm, got.segs, want, leaf_tensor)
        else:
            if not isinstance(got, VDict):
                I.oblige(nm + ': returns a dictionary', False, repr(got))
                return
            kvs = [KV(k, v) for k, v in got.items.items()] + list(got.segs)
            match(I, nm, kvs, want, leaf_kv)
        a = I.fr_args
        I.oblige('the filters along frequency are built for J_fr and width 2^J_fr', z3.And(ints(a['J']) == P['J_fr'].e, ints(a['T']) == pow2(P['J_fr'].e)))
    return body


SHARED = ['c07']


def cases(tier):
    out = []

    def add(*a):
        nm = 'TimeFrequencyScattering %s T=%s F=%s out_type=%s format=%s' % a[:5] + (' stride' if a[5:6] == (True,) else '') + (' stride_fr' if a[6:7] == (True,) else '')
        if nm not in [c.name for c in out]:
            out.append(Case(nm, case(*a), [setup]))
    out.append(Case('lemma: rows kept', lemma))
    full = tier == 'thorough'
    four = ('None', 'global', '0', 'sym')
    for fmt in ('joint', 'time'):
        for tk in four:
            for fk in four:
                if full or (tk == 'None') == (fk == 'None'):        # None is 2^J, 2^J_fr: an instance of the symbolic value
                    add('numpy', tk, fk, 'list', fmt, tk in ('None', 'sym'), fk in ('None', 'sym'))
        for ot in ('array', 'dict'):
            for tk, fk in (('None', 'None'), ('global', 'sym'), ('0', 'None'), ('sym', '0'), ('sym', 'global')):
                if not (fmt == 'joint' and ot == 'array' and fk == 'global') and (full or ot == 'array' or tk not in ('sym', '0')):
                    add('numpy', tk, fk, ot, fmt)
        for fe in ('torch', 'jax', 'tensorflow'):
            if fmt == 'joint' or full:
                add(fe, 'None', 'None', 'list', fmt)
            if fmt == 'time' or full:
                add(fe, 'global', 'None', 'array', fmt)
            if full:
                for tk in four:
                    for fk in four:
                        for ot in ('array', 'dict', 'list'):
                            if not (fmt == 'joint' and ot == 'array' and fk == 'global'):
                                add(fe, tk, fk, ot, fmt, tk in ('None', 'sym'), fk in ('None', 'sym'))
    from contracts import c07
    return out + c07.cases(tier)
