"""Contracts of src/metrics.hpp (C14, C15)."""
from lib import *

HDR = 'metrics.hpp'
INST = '''template class ErrorMetrics<false>; template class KappaMetrics<3, false>;
inline double use_(KappaMetrics<3,false>& k){ k.increase_error(); return k.template kappa<false>() + k.score(); }
inline double use2_(){ ErrorMetrics<false> a; a.increase_error(); return a.score(); }'''
PROG = dict(header=HDR, inst=INST)
LIM = 2 ** 30


class Err:
    def __init__(s, ck):
        s.prog = ck.prog(HDR, INST)
        s.ratio = Bool('use_ratio')
        s.eng = e = ck.engine(s.prog, dict(use_ratio=s.ratio))
        s.rec = s.prog.rec('ErrorMetrics')
        s.this = obj(e, s.rec)
        ints = lambda t: t.k == 'int'
        s.ck_ = ('this', (fld(s.prog, s.rec, 'count', ints, e),))
        s.ek = ('this', (fld(s.prog, s.rec, 'error_count', ints, e, 1),))
        s.S = State()
        s.c, s.e = e.get(s.S, s.ck_), e.get(s.S, s.ek)
        e.assume(AND(s.c >= 0, s.c < LIM, s.e >= 0, s.e <= s.c))
        s.ck = ck

    def f(s, name, n=None):
        f = s.prog.func(s.rec, name)
        s.ck.under(f)
        return f


def err_update(ck):
    s = Err(ck)
    e = s.eng
    t, p = Int('true_label'), Int('prediction')
    e.assume(AND(t >= -2 ** 31, t < 2 ** 31, p >= -2 ** 31, p < 2 ** 31))
    e.invoke(s.f('update'), s.this, [t, p], s.S)
    e.prove('one more update', e.get(s.S, s.ck_) == s.c + 1, s.S)
    e.prove('one more error exactly when wrong', e.get(s.S, s.ek) == s.e + z3.If(t != p, 1, 0), s.S)
    ck.cover(e, s.S)


def err_inc(default):
    def t(ck):
        s = Err(ck)
        e = s.eng
        n = IV(1) if default else Int('c')
        e.assume(AND(n >= 0, n < LIM))
        f = s.f('increase_error')
        e.invoke(f, s.this, e.bind_args(f, [], s.S) if default else [n], s.S)
        e.prove('c more updates', e.get(s.S, s.ck_) == s.c + n, s.S)
        e.prove('c more errors', e.get(s.S, s.ek) == s.e + n, s.S)
        ck.cover(e, s.S)
    return t


def err_reset(ck):
    s = Err(ck)
    e = s.eng
    e.invoke(s.f('reset'), s.this, [], s.S)
    e.prove('no update', e.get(s.S, s.ck_) == 0, s.S)
    e.prove('no error', e.get(s.S, s.ek) == 0, s.S)
    ck.cover(e, s.S)
    S = State()
    e.default_fields(s.this, S)
    e.prove('new: no update', e.get(S, s.ck_) == 0, S)
    e.prove('new: no error', e.get(S, s.ek) == 0, S)


def err_score(mode):
    def t(ck):
        s = Err(ck)
        e = s.eng
        S0 = s.S.copy()
        inv, sz = Bool('invert'), Int('tree_size')
        e.assume(AND(s.c >= 1, sz >= -2 ** 31, sz < 2 ** 31))
        f = s.f('score')
        if mode == 'default':
            args = e.bind_args(f, [], s.S)
            inv, sz = Ff, IV(-1)
        else:
            args = [inv, sz]
            e.assume(z3.Implies(AND(inv, s.ratio), sz != 0))
        r = e.invoke(f, s.this, args, s.S)
        C, E, Z = z3.ToReal(s.c), z3.ToReal(s.e), z3.ToReal(sz)
        base = z3.If(inv, (C - E) / C, E / C)
        e.prove('plain score', IMP(NOT(s.ratio), r == base), s.S)
        e.prove('ratio score', IMP(AND(s.ratio, NOT(inv)), r == base * Z), s.S)
        e.prove('inverted ratio score', IMP(AND(s.ratio, inv), r == base / Z), s.S)
        frame(e, S0, s.S, s.this)
        ck.cover(e, s.S)
        r = e.invoke(s.f('ratio'), s.this, [], s.S)
        e.prove('ratio() tells the mode', r == s.ratio, s.S)
    return t


class Kap:
    def __init__(s, ck):
        s.prog = ck.prog(HDR, INST)
        s.ratio, s.L = Bool('use_ratio'), Int('label_count')
        s.eng = e = ck.engine(s.prog, dict(use_ratio=s.ratio, label_count=s.L))
        e.assume(AND(s.L >= 1, s.L < LIM))
        s.rec = s.prog.rec('KappaMetrics')
        s.this = obj(e, s.rec)
        s.ckey = ('this', (fld(s.prog, s.rec, 'confusion', lambda t: t.k == 'arr', e), '[]', '[]'))
        s.tkey = ('this', (fld(s.prog, s.rec, 'total', lambda t: t.k == 'int', e),))
        s.S = State()
        s.conf, s.tot = e.get(s.S, s.ckey), e.get(s.S, s.tkey)
        i, j = qv('i'), qv('j')
        e.assume(AND(s.tot >= 0, s.tot < LIM))
        e.assume(FA([i, j], AND(SEL(s.conf, i, j) >= 0, SEL(s.conf, i, j) <= s.tot), z3.Select(z3.Select(s.conf, i), j)))
        s.ck = ck

    def f(s, name, **kw):
        f = s.prog.func(s.rec, name, **kw)
        s.ck.under(f)
        return f

    def at(s, S, i, j): return SEL(s.eng.get(S, s.ckey), i, j)

    def zero_cands(s, L):
        out = []
        e = s.eng
        i, j = qv('i'), qv('j')
        z = lambda S: s.at(S, i, j) == 0
        pat = lambda S: [z3.Select(z3.Select(e.get(S, s.ckey), i), j)]
        ins = L.int_keys(None)
        for n1, k1 in ins:
            out.append((f'rows below {n1} zero', lambda S, k1=k1: FA([i, j], IMP(AND(i >= 0, i < L.val(S, k1), j >= 0, j < s.L), z(S)), *pat(S))))
            out.append((f'rows above {n1} zero', lambda S, k1=k1: FA([i, j], IMP(AND(i > L.val(S, k1), i < s.L, j >= 0, j < s.L), z(S)), *pat(S))))
            for n2, k2 in L.int_keys(True):
                if k1 == k2: continue
                out.append((f'row {n1} below {n2} zero', lambda S, k1=k1, k2=k2: FA(j, IMP(AND(j >= 0, j < L.val(S, k2)), s.at(S, L.val(S, k1), j) == 0))))
        return out


def kap_new(which):
    def t(ck):
        s = Kap(ck)
        e = s.eng
        e.inv_hooks.append(s.zero_cands)
        if which == 'ctor':
            f = s.prog.ctor(s.rec, lambda f: not f.params)
            ck.under(f)
        else: f = s.f('reset')
        e.invoke(f, s.this, [], s.S)
        i, j = qv('i'), qv('j')
        e.prove('no update recorded', FA([i, j], IMP(AND(i >= 0, i < s.L, j >= 0, j < s.L), s.at(s.S, i, j) == 0)), s.S)
        e.prove('total is zero', e.get(s.S, s.tkey) == 0, s.S)
        ck.cover(e, s.S)
    return t


def kap_update(ck):
    s = Kap(ck)
    e = s.eng
    t, p = Int('true_label'), Int('prediction')
    e.assume(AND(t >= 0, t < s.L, p >= 0, p < s.L))
    e.invoke(s.f('update'), s.this, [t, p], s.S)
    i, j = qv('i'), qv('j')
    e.prove('exactly the cell of the two labels', FA([i, j], IMP(AND(i >= 0, i < s.L, j >= 0, j < s.L), s.at(s.S, i, j) == SEL(s.conf, i, j) + z3.If(AND(i == t, j == p), 1, 0))), s.S)
    e.prove('one more update', e.get(s.S, s.tkey) == s.tot + 1, s.S)
    ck.cover(e, s.S)


def kap_inc(default):
    def t(ck):
        s = Kap(ck)
        e = s.eng
        n = IV(1) if default else Int('c')
        e.assume(AND(n >= 0, n < LIM, s.L >= 2))
        f = s.f('increase_error')
        e.invoke(f, s.this, e.bind_args(f, [], s.S) if default else [n], s.S)
        i, j, a, b = qv('i'), qv('j'), Int('wa'), Int('wb')
        # the changed cell: any off-diagonal cell
        A = e.get(s.S, s.ckey)
        e.prove('total grows by c', e.get(s.S, s.tkey) == s.tot + n, s.S)
        e.prove('right predictions are unchanged', FA(i, IMP(AND(i >= 0, i < s.L), SEL(A, i, i) == SEL(s.conf, i, i))), s.S)
        # witness: the stores of the symbolic state name the cell
        w = stored_cell(A, s.conf)
        if w is None: raise Unsupported('increase_error does not change a single cell')
        a, b = w
        e.prove('the changed cell is inside', AND(a >= 0, a < s.L, b >= 0, b < s.L, a != b), s.S)
        e.prove('exactly one cell grows by c', FA([i, j], IMP(AND(i >= 0, i < s.L, j >= 0, j < s.L), SEL(A, i, j) == SEL(s.conf, i, j) + z3.If(AND(i == a, j == b), n, 0))), s.S)
        ck.cover(e, s.S)
    return t


def stored_cell(A, A0):
    if z3.is_store(A) and A.arg(0).eq(A0) and z3.is_store(A.arg(2)): return A.arg(1), A.arg(2).arg(1)
    return None


def kap_assign(ck):
    s = Kap(ck)
    e = s.eng
    o = obj(e, s.rec, 'other')
    ok, tk = ('other',) + s.ckey[1:], ('other',) + s.tkey[1:]
    i, j = qv('i'), qv('j')
    O = e.get(s.S, ok)
    def cands(L):
        out = []
        g = lambda S: s.at(S, i, j) == SEL(O, i, j)
        for n1, k1 in L.int_keys(None):
            out.append((f'rows below {n1} copied', lambda S, k1=k1: FA([i, j], IMP(AND(i >= 0, i < L.val(S, k1), j >= 0, j < s.L), g(S)))))
            out.append((f'rows above {n1} copied', lambda S, k1=k1: FA([i, j], IMP(AND(i > L.val(S, k1), i < s.L, j >= 0, j < s.L), g(S)))))
            for n2, k2 in L.int_keys(True):
                if k1 != k2: out.append((f'row {n1} below {n2} copied', lambda S, k1=k1, k2=k2: FA(j, IMP(AND(j >= 0, j < L.val(S, k2)), s.at(S, L.val(S, k1), j) == SEL(O, L.val(S, k1), j)))))
        return out
    e.inv_hooks.append(cands)
    S0 = s.S.copy()
    try: f = s.f('operator=', npar=1, sel=lambda f: f.body is not None)
    except ExtractError: f = None
    if f is None or f.body is None: raise Unsupported('no user-written operator=')
    e.invoke(f, s.this, [LVs([(Tt, o)])], s.S)
    e.prove('every cell is copied', FA([i, j], IMP(AND(i >= 0, i < s.L, j >= 0, j < s.L), s.at(s.S, i, j) == SEL(O, i, j))), s.S)
    e.prove('the total is copied', e.get(s.S, s.tkey) == e.get(S0, tk), s.S)
    frame(e, S0, s.S, o, label='source unchanged')
    ck.cover(e, s.S)


def spec_kappa(s):
    e = s.eng
    R = z3.ToReal
    D = Sum(e, 'D', lambda k: R(SEL(s.conf, k, k)))
    Row = Sum(e, 'Row', lambda i, j: R(SEL(s.conf, i, j)), 1)
    Col = Sum(e, 'Col', lambda i, j: R(SEL(s.conf, j, i)), 1)
    P = Sum(e, 'S', lambda i: Row(i, s.L) * Col(i, s.L))
    T_ = R(s.tot)
    num, den = T_ * D(s.L) - P(s.L), T_ * T_ - P(s.L)
    e.inv_hooks.append(lambda L: sum_cands(L, D) + sum_cands(L, Row) + sum_cands(L, Col) + sum_cands(L, P))
    return num, den


def kap_kappa(ck):
    s = Kap(ck)
    e = s.eng
    num, den = spec_kappa(s)
    S0 = s.S.copy()
    r = e.invoke(s.f('kappa'), s.this, [], s.S)
    e.prove("kappa is Cohen's kappa of the matrix", r == num / den, s.S)
    frame(e, S0, s.S, s.this)
    ck.cover(e, s.S)


def kap_score(default):
    def t(ck):
        s = Kap(ck)
        e = s.eng
        f = s.prog.func(s.rec, 'kappa')
        K = Real('kappa')
        e.contracts[f.id] = Contract(result=lambda *a: K)
        inv, sz = Bool('invert'), Int('tree_size')
        sc = s.f('score')
        if default:
            args = e.bind_args(sc, [], s.S)
            inv, sz = Ff, IV(-1)
        else:
            args = [inv, sz]
            e.assume(AND(sz >= -2 ** 31, sz < 2 ** 31, IMP(AND(s.ratio, inv), sz != 0)))
        S0 = s.S.copy()
        r = e.invoke(sc, s.this, args, s.S)
        base, Z = z3.If(inv, (1 + K) / 2, (1 - K) / 2), z3.ToReal(sz)
        e.prove('plain score', IMP(NOT(s.ratio), r == base), s.S)
        e.prove('ratio score', IMP(AND(s.ratio, NOT(inv)), r == base * Z), s.S)
        e.prove('inverted ratio score', IMP(AND(s.ratio, inv), r == base / Z), s.S)
        frame(e, S0, s.S, s.this)
        ck.cover(e, s.S)
        r = e.invoke(s.f('ratio'), s.this, [], s.S)
        e.prove('ratio() tells the mode', r == s.ratio, s.S)
    return t


A = ['counts stay below 2^30 (no int overflow)', 'scores are asked for after at least one update, tree sizes are non-zero when they divide']
base = dict(headers=[HDR], native='metrics.cpp', programs=[PROG], assumptions=A)
SPECS = {
    'C14': dict(base, tasks=[('update', err_update), ('increase_error', err_inc(False)), ('increase_error default', err_inc(True)), ('reset and new', err_reset),
                             ('score', err_score('all')), ('score default', err_score('default'))]),
    'C15': dict(base, tasks=[('constructor', kap_new('ctor')), ('reset', kap_new('reset')), ('update', kap_update), ('increase_error', kap_inc(False)),
                             ('increase_error default', kap_inc(True)), ('assignment', kap_assign), ('kappa', kap_kappa), ('score', kap_score(False)), ('score default', kap_score(True))]),
}
