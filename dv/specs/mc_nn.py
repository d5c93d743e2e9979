"""Contracts of src/mc_nn.hpp (C18, C19, C20)."""
from lib import *

HDR = 'mc_nn.hpp'
INST = 'template class MCNN<double, 3, 5>; inline void use_(){ MCNN<double, 3, 5> a; double x[3]; a.train(x, 1); a.predict(x); }'
PROG = dict(header=HDR, inst=INST)
R, I = z3.RealSort(), z3.IntSort()
BA = z3.ArraySort(I, z3.BoolSort())


class M:
    def __init__(s, ck):
        s.ck = ck
        s.prog = ck.prog(HDR, INST)
        s.F, s.MC, s.EC = Int('feature_count'), Int('max_cluster'), Int('empty_class')
        s.eng = e = ck.engine(s.prog, dict(feature_count=s.F, max_cluster=s.MC, empty_class=s.EC))
        e.assume(AND(s.F >= 1, s.F < 2 ** 31 - 1, s.MC >= 1, s.MC < 2 ** 31 - 1, s.EC >= -2 ** 31, s.EC < 2 ** 31))
        s.rm = RMul(e)
        s.DIV = z3.Function('DIV', R, R, R)
        e.fdiv = lambda a, b, st: s.DIV(a, b)
        s.rec, s.cl = s.prog.rec('MCNN'), s.prog.rec('cluster')
        s.this = obj(e, s.rec)
        arrf = lambda t: t.k == 'arr' and t.to.k == 'float'
        isf, isi = (lambda t: t.k == 'float'), (lambda t: t.k == 'int')
        cn = fld(s.prog, s.rec, 'clusters', lambda t: t.k == 'arr' and t.to.k == 'rec', e)
        g = lambda n, p, nth, *x: ('this', (cn, '[]', fld(s.prog, s.cl, n, p, e, nth)) + x)
        s.sq, s.sum = g('features_square_sum', arrf, 0, '[]'), g('features_sum', arrf, 1, '[]')
        s.tsq, s.ts, s.t0 = g('timestamp_square_sum', isf, 0), g('timestamp_sum', isf, 1), g('initial_timestamp', isf, 2)
        s.n, s.lab, s.err = g('data_count', isi, 0), g('label', isi, 1), g('error_count', isi, 2)
        s.clkeys = dict(sq=s.sq, sum=s.sum, tsq=s.tsq, ts=s.ts, t0=s.t0, n=s.n, lab=s.lab, err=s.err)
        s.act = ('this', (fld(s.prog, s.rec, 'active', lambda t: t.k == 'arr' and t.to.k == 'bool', e), '[]'))
        s.cnt = ('this', (fld(s.prog, s.rec, 'count_active_cluster', isi, e, 0),))
        s.thr = ('this', (fld(s.prog, s.rec, 'error_thr', isi, e, 1),))
        s.cm = ('this', (fld(s.prog, s.rec, 'cleaning_method', isi, e, 2),))
        s.time = ('this', (fld(s.prog, s.rec, 'timestamp', isf, e, 0),))
        s.S = State()

    def A(s, S, c): return z3.Select(s.eng.get(S, s.act), c)
    def at(s, S, k, *c): return SEL(s.eng.get(S, k), *c)

    def invariant(s, S, j=None):
        """what holds of an object between calls"""
        j = qv('c')
        return [('every cluster in use holds at least one point', FA(j, IMP(AND(j >= 0, j < s.MC, s.A(S, j)), s.at(S, s.n, j) >= 1), s.at(S, s.n, j))),
                ('the reported count is the number of clusters in use', s.eng.get(S, s.cnt) == s.CNT(s.eng.get(S, s.act)))]

    def counting(s):
        """the number of true slots, with its lemmas proved by induction on the capacity"""
        e = s.eng
        C = z3.Function('C', BA, I, I)
        a, n, i = z3.Const('a?', BA), z3.Const('n?', I), z3.Const('i?', I)
        v = z3.Const('v?', z3.BoolSort())
        b = lambda x: z3.If(x, IV(1), IV(0))
        unf = lambda a, n: AND(C(a, 0) == 0, C(a, n + 1) == C(a, n) + b(z3.Select(a, n)))
        ac, nc, ic, vc = z3.Const('a_', BA), Int('n_'), Int('i_'), Bool('v_')
        st = z3.Store(ac, ic, vc)
        law = lambda a, i, v, n: C(z3.Store(a, i, v), n) == C(a, n) + z3.If(AND(i >= 0, i < n), b(v) - b(z3.Select(a, i)), IV(0))
        S = State()
        e.prove('lemma: counting starts at zero', IMP(AND(unf(st, nc), unf(ac, nc)), law(ac, ic, vc, IV(0))), S)
        e.prove('lemma: storing changes the count by the difference', IMP(AND(nc >= 0, unf(st, nc), unf(ac, nc), law(ac, ic, vc, nc)), law(ac, ic, vc, nc + 1)), S)
        e.prove('lemma: the count is between zero and the size', IMP(AND(nc >= 0, unf(ac, nc), C(ac, nc) >= 0, C(ac, nc) <= nc), AND(C(ac, 0) == 0, C(ac, nc + 1) >= 0, C(ac, nc + 1) <= nc + 1)), S)
        e.prove('lemma: nothing in use counts zero', IMP(AND(nc >= 0, unf(ac, nc), C(ac, nc) == 0, NOT(z3.Select(ac, nc))), C(ac, nc + 1) == 0), S)
        s.CNT = z3.Function('CNT', BA, I)          # CNT(a) = C(a, max_cluster)
        e.assume(FA(a, AND(s.CNT(a) >= 0, s.CNT(a) <= s.MC), s.CNT(a)))
        e.assume(FA([a, i, v], s.CNT(z3.Store(a, i, v)) == s.CNT(a) + z3.If(AND(i >= 0, i < s.MC), b(v) - b(z3.Select(a, i)), IV(0)), z3.Store(a, i, v)))
        e.assume(FA(a, IMP(FA(i, IMP(AND(i >= 0, i < s.MC), NOT(z3.Select(a, i)))), s.CNT(a) == 0), s.CNT(a)))

    def start(s, inv=True):
        """an arbitrary object satisfying the invariant"""
        e = s.eng
        s.counting()
        if inv:
            for _, g in s.invariant(s.S): e.assume(g)
        c = qv('c')
        n, er = s.at(s.S, s.n, c), s.at(s.S, s.err, c)
        e.assume(FA(c, AND(n >= 0, n < 2 ** 32 - 2), n))
        e.assume(FA(c, AND(er > -2 ** 31 + 4, er < 2 ** 31 - 4), er))
        e.assume(e.get(s.S, s.thr) < 2 ** 31 - 4)
        e.assume(e.get(s.S, s.thr) >= 0)

    def point(s):
        e = s.eng
        s.xk = ('features', ('[]',))
        s.p = array(e, 'features', FLT, s.F)
        s.X = e.get(s.S, s.xk)

    def geometry(s, S0):
        """squared distance from the point to the centroid of a cluster of S0"""
        e = s.eng
        s.geo = {k: e.get(S0, k) for k in (s.sum, s.n, s.lab)}
        s.CEN = lambda c, j: s.DIV(SEL(s.geo[s.sum], c, j), z3.ToReal(z3.Select(s.geo[s.n], c)))
        s.D = Sum(e, 'D', lambda c, k: s.rm(z3.Select(s.X, k) - s.CEN(c, k), z3.Select(s.X, k) - s.CEN(c, k)), 1)
        s.DIST = lambda c: s.D(c, s.F)
        e.inv_hooks.append(s.geo_cands)

    def ofclass(s, S, l): return lambda c: AND(s.A(S, c), z3.Select(s.geo[s.lab], c) == l)

    def geo_cands(s, L):
        e = s.eng
        out = []
        scope = scope_terms(L)
        fixed = fixed_terms(L)
        # centroid of a cluster being computed
        for nm, k in float_arrays(L):
            if k not in L.mods: continue
            for tn, t in fixed:
                out += prefix(L, f'{nm} is the centroid of {tn}', lambda S, j, k=k, t=t: z3.Select(e.get(S, k), j) == s.CEN(t, j), hi=s.F)
        # squared distance being summed
        for nr, kr in L.real_keys(True):
            for tn, t in fixed:
                for inm, ik in L.int_keys(True):
                    out.append((f'{nr} = D({tn},{inm})', lambda S, kr=kr, t=t, ik=ik: e.get(S, kr) == s.D(t, L.val(S, ik))))
        # nearest so far
        preds = [('in use', lambda S: lambda c: s.A(S, c))]
        if hasattr(s, 'label'): preds.append(('in use with the label', lambda S: s.ofclass(S, s.label)))
        if s.act in L.mods: preds = []
        for pn, P in preds:
            for bn, bk in L.int_keys(True):
                for inm, ik in L.int_keys(True):
                    if bk == ik: continue
                    def first(S, bk=bk, ik=ik, P=P):
                        b, i, c = L.val(S, bk), L.val(S, ik), qv('c')
                        return AND(b >= -1, b < i, IMP(b >= 0, P(S)(b)))
                    out.append((f'{bn} {pn} below {inm}', first))
                    def none(S, bk=bk, ik=ik, P=P):
                        b, i, c = L.val(S, bk), L.val(S, ik), qv('c')
                        return IMP(b < 0, FA(c, IMP(AND(c >= 0, c < i), NOT(P(S)(c))), s.A(S, c)))
                    out.append((f'nothing {pn} below {inm} without {bn}', none))
                    for nr, kr in L.real_keys(True):
                        def best(S, bk=bk, ik=ik, kr=kr, P=P):
                            b, i, c = L.val(S, bk), L.val(S, ik), qv('c')
                            return IMP(b >= 0, FA(c, IMP(AND(c >= 0, c < i, P(S)(c)), e.get(S, kr) <= s.DIST(c)), s.DIST(c)))
                        out.append((f'{nr} least distance {pn} below {inm}', best))
                        out.append((f'{nr} distance of {bn}', lambda S, bk=bk, kr=kr: IMP(L.val(S, bk) >= 0, e.get(S, kr) == s.DIST(L.val(S, bk)))))
        return out

    def nearest(s, S, b, P):
        c = qv('c')
        return AND(b >= -1, b < s.MC, IMP(b < 0, FA(c, IMP(AND(c >= 0, c < s.MC), NOT(P(c))), s.A(S, c))),
                   IMP(b >= 0, AND(P(b), FA(c, IMP(AND(c >= 0, c < s.MC, P(c)), s.DIST(b) <= s.DIST(c)), s.DIST(c)))))

    def post3(s, S, b, d):
        return [('an active cluster at the smallest distance, -1 exactly if there is none', s.nearest(S, b, lambda c: s.A(S, c)))] + \
               ([('the distance is reported', IMP(b >= 0, d == s.DIST(b)))] if d is not None else [])

    def post4(s, S, b, w):
        P = s.ofclass(S, s.label)
        return [('the nearest of the class, -1 exactly if there is none', s.nearest(S, w, P)),
                ('the nearest overall if the class has a cluster', IMP(w >= 0, AND(b >= 0, s.nearest(S, b, lambda c: s.A(S, c))))),
                ('the nearest of the class counts as the nearest when it is as near', IMP(AND(w >= 0, s.DIST(w) == s.DIST(b)), b == w))]

    def find(s, npar):
        return s.prog.func(s.rec, 'find_nearest_clusters', npar)

    def same_geo(s, st):
        if not all(same(s.eng.get(st, k), v) for k, v in s.geo.items()) or not same(s.eng.get(st, s.xk), s.X): raise Unsupported('clusters changed before the search')

    def contract3(s):
        try: f = s.find(3)
        except ExtractError: return
        def eff(eng, this, vals, st):
            s.same_geo(st)
            b, d = eng.fresh('nearest', I), eng.fresh('dist', R)
            eng.write(vals[1].alts, b, st)
            if isinstance(vals[2], Ptr):
                a = [x for x in vals[2].alts if x[1] is not None]
                if a: eng.write(a, d, st)
            for _, g in s.post3(st, b, d): eng.facts.append(IMP(AND(*st.pc), g))
        s.eng.contracts[f.id] = Contract(effect=eff)

    def contract4(s):
        try: f = s.find(4)
        except ExtractError: return
        def eff(eng, this, vals, st):
            s.same_geo(st)
            if not vals[1].eq(s.label): raise Unsupported('search for another label')
            b, w = eng.fresh('nearest', I), eng.fresh('nearest_with_class', I)
            eng.write(vals[2].alts, b, st)
            eng.write(vals[3].alts, w, st)
            s.search = (b, w, eng.get(st, s.act))
            for _, g in s.post4(st, b, w): eng.facts.append(IMP(AND(*st.pc), g))
        s.eng.contracts[f.id] = Contract(effect=eff)

    def split_func(s):
        return s.prog.func(s.rec, 'split', 1)

    def split_post(s, S0, S1, c):
        """clusters change arbitrarily except that those in use stay non-empty and the count is right"""
        j = qv('c')
        return s.invariant(S1) + [('no cluster is retired', FA(j, IMP(s.A(S0, j), s.A(S1, j)), s.A(S1, j)))]

    def contract_split(s):
        try: f = s.split_func()
        except ExtractError: return

        def req(eng, this, vals, st):
            c = vals[0]
            return [('a cluster in use is split', AND(c >= 0, c < s.MC, s.A(st, c)))] + s.invariant(st)

        def mod(eng, this, vals, st): return list(s.clkeys.values()) + [s.act, s.cnt]

        def ens(eng, this, vals, pre, st, ret):
            return s.split_post(pre, st, vals[0])
        s.eng.contracts[f.id] = Contract(requires=req, modifies=mod, ensures=ens)

    def lowest_cands(s, L):
        out = []
        for bn, bk in L.int_keys(True):
            for inm, ik in L.int_keys(True):
                if bk != ik: out.append((f'{bn} < {inm} once it is positive', lambda S, bk=bk, ik=ik: IMP(L.val(S, ik) > 0, AND(L.val(S, bk) >= 0, L.val(S, bk) < L.val(S, ik)))))
                if bk != ik: out.append((f'{bn} as before until {inm} moves', lambda S, bk=bk, ik=ik: IMP(L.val(S, ik) == L.val(L.pre, ik), L.val(S, bk) == L.val(L.pre, bk))))
        for bn, bk in L.int_keys(True):
            for inm, ik in L.int_keys(True):
                if bk == ik: continue
                out.append((f'{bn} is in use', lambda S, bk=bk: IMP(L.val(S, bk) >= 0, s.A(S, L.val(S, bk)))))
                def none(S, bk=bk, ik=ik):
                    c = qv('c')
                    return IMP(L.val(S, bk) < 0, FA(c, IMP(AND(c >= 0, c < L.val(S, ik)), NOT(s.A(S, c))), s.A(S, c)))
                out.append((f'nothing in use below {inm} without {bn}', none))
            if s.act not in L.mods: out += prefix(L, 'in use', lambda S, j: s.A(S, j))
        for inm, ik in L.int_keys(True):
            if s.act in L.mods: continue
            for tn, t in fixed_terms(L):
                out += prefix(L, f'in use but {tn}', lambda S, j, t=t: OR(s.A(S, j), j == t))
        if not L.int_keys(True): return out
        if s.act not in L.mods: out += prefix(L, 'in use', lambda S, j: s.A(S, j))
        out += [(n, lambda S, g=n_: s.invariant(S)[g][1]) for n_, n in ((0, 'non-empty'), (1, 'count'))]
        return out


def find3(ck):
    s = M(ck)
    e = s.eng
    s.start()
    s.point()
    f = s.find(3)
    ck.under(f)
    s.geometry(s.S)
    near, dist = cell(e, 'nearest_out', I32), cell(e, 'shortest_out', FLT)
    S0 = s.S.copy()
    for opt in (True, False):
        S = s.S.copy()
        e.invoke(f, s.this, [s.p, LVs(near.alts), dist if opt else NULL()], S)
        b, d = e.get(S, ('nearest_out', ())), e.get(S, ('shortest_out', ()))
        w = 'with distance' if opt else 'without distance'
        for nm, g in s.post3(S0, b, d if opt else None): e.prove(f'{w}: {nm}', g, S)
        frame(e, S0, S, s.this)
        e.prove('the point is unchanged', unchanged(e, S0, S, s.xk), S)
        ck.cover(e, S)


def find4(ck):
    s = M(ck)
    e = s.eng
    s.start()
    s.point()
    s.label = Int('label')
    e.assume(AND(s.label >= -2 ** 31, s.label < 2 ** 31))
    f = s.find(4)
    ck.under(f)
    s.geometry(s.S)
    s.contract3()
    near, wc = cell(e, 'nearest_out', I32), cell(e, 'with_class_out', I32)
    S0, S = s.S.copy(), s.S
    e.invoke(f, s.this, [s.p, s.label, LVs(near.alts), LVs(wc.alts)], S)
    for nm, g in s.post4(S0, e.get(S, ('nearest_out', ())), e.get(S, ('with_class_out', ()))): e.prove(nm, g, S)
    frame(e, S0, S, s.this)
    e.prove('the point is unchanged', unchanged(e, S0, S, s.xk), S)
    ck.cover(e, S)


def predict(ck):
    s = M(ck)
    e = s.eng
    s.start()
    s.point()
    f = s.prog.func(s.rec, 'predict')
    ck.under(f)
    s.geometry(s.S)
    s.contract3()
    S0 = s.S.copy()
    r = e.invoke(f, s.this, [s.p], s.S)
    c, c2 = qv('c'), qv('c')
    none = FA(c, IMP(AND(c >= 0, c < s.MC), NOT(s.A(S0, c))), s.A(S0, c))
    e.prove('the empty class if there is no cluster', IMP(none, r == s.EC), s.S)
    best = z3.Exists(c, AND(c >= 0, c < s.MC, s.A(S0, c), s.at(S0, s.lab, c) == r, FA(c2, IMP(AND(c2 >= 0, c2 < s.MC, s.A(S0, c2)), s.DIST(c) <= s.DIST(c2)), s.DIST(c2))))
    e.prove('the label of an active cluster at the smallest distance', IMP(NOT(none), best), s.S)
    frame(e, S0, s.S, s.this)
    e.prove('the point is unchanged', unchanged(e, S0, s.S, s.xk), s.S)
    ck.cover(e, s.S)


def new(ck):
    s = M(ck)
    e = s.eng
    s.counting()
    thr, cm = Int('thr'), Int('cm')
    e.assume(AND(thr >= 0, thr < 2 ** 32, cm >= 0, cm < 2 ** 32))
    f = construct(e, s.rec, s.this, [thr, cm, z3.Real('pthr')], s.S)
    if f: ck.under(f)
    c = qv('c')
    e.prove('no cluster is in use', FA(c, IMP(AND(c >= 0, c < s.MC), NOT(s.A(s.S, c)))), s.S)
    e.prove('the count is zero', e.get(s.S, s.cnt) == 0, s.S)
    e.prove('the error threshold is the one given', e.get(s.S, s.thr) == thr, s.S)
    e.prove('the cleaning method is the one given', e.get(s.S, s.cm) == cm, s.S)
    for nm, g in s.invariant(s.S): e.prove(nm, g, s.S)
    ck.cover(e, s.S)


def getter(ck):
    s = M(ck)
    e = s.eng
    s.start()
    f = s.prog.func(s.rec, 'count_clusters')
    ck.under(f)
    S0 = s.S.copy()
    r = e.invoke(f, s.this, [], s.S)
    e.prove('the count reported is the number of clusters in use', r == s.CNT(e.get(S0, s.act)), s.S)
    frame(e, S0, s.S, s.this)
    ck.cover(e, s.S)


def split(ck):
    s = M(ck)
    e = s.eng
    s.start()
    f = s.split_func()
    ck.under(f)
    e.inv_hooks.append(s.lowest_cands)
    c = Int('cluster')
    e.assume(AND(c >= 0, c < s.MC, s.A(s.S, c)))
    S0 = s.S.copy()
    e.invoke(f, s.this, [c], s.S)
    for nm, g in s.split_post(S0, s.S, c): e.prove(nm, g, s.S)
    e.prove('the count does not exceed the capacity', IMP(s.invariant(s.S)[1][1], e.get(s.S, s.cnt) <= s.MC), s.S)
    e.prove('the cluster stays in use', s.A(s.S, c), s.S)
    frame(e, S0, s.S, s.this, skip=[k[1] for k in s.clkeys.values()] + [s.act[1], s.cnt[1]])
    ck.cover(e, s.S)


def train(full):
    def t(ck):
        s = M(ck)
        e = s.eng
        s.start()
        s.point()
        s.label = Int('label')
        e.assume(AND(s.label >= -2 ** 31, s.label < 2 ** 31))
        f = s.prog.func(s.rec, 'train')
        ck.under(f)
        s.geometry(s.S)
        s.contract3()
        s.contract4()
        s.contract_split()
        e.inv_hooks.append(s.lowest_cands)
        S0 = s.S.copy()
        G0 = {k: e.get(S0, k) for k in s.clkeys.values()}
        sums = {'sum': lambda j: z3.Select(s.X, j), 'sq': lambda j: s.rm(z3.Select(s.X, j), z3.Select(s.X, j))}

        def row(S, n, c, j): return SEL(e.get(S, s.clkeys[n]), c, j)

        def cands(L):
            out = []
            for n, inc in sums.items():
                k = s.clkeys[n]
                if k not in L.mods: continue
                A0 = e.get(L.pre, k)
                for tn, t in fixed_terms(L):
                    for w, val in (('set', lambda j, t=t, inc=inc: inc(j)), ('grown', lambda j, t=t, A0=A0, inc=inc: SEL(A0, t, j) + inc(j))):
                        out += prefix(L, f'{n} of {tn} {w}', lambda S, j, n=n, t=t, val=val: row(S, n, t, j) == val(j), hi=s.F)
                    out += prefix(L, f'{n} of {tn} not yet', lambda S, j, n=n, t=t, A0=A0: row(S, n, t, j) == SEL(A0, t, j), hi=s.F)
                    c, j = qv('c'), qv('j')
                    out.append((f'{n} kept but {tn}', lambda S, n=n, t=t, A0=A0: (lambda c: FA(c, IMP(c != t, z3.Select(e.get(S, s.clkeys[n]), c) == z3.Select(A0, c)), z3.Select(e.get(S, s.clkeys[n]), c)))(qv('c'))))
            # cleaning only retires clusters
            if s.act in L.mods:
                out.append(('only retires', lambda S: (lambda c: FA(c, IMP(s.A(S, c), s.A(L.pre, c)), s.A(S, c)))(qv('c'))))
            return out
        e.inv_hooks.append(cands)
        r = e.invoke(f, s.this, [s.p, s.label], s.S)
        S1 = s.S
        a0 = lambda c: s.A(S0, c)
        c, c2, j = qv('c'), qv('c'), qv('j')
        rngc = lambda c: AND(c >= 0, c < s.MC)
        nocl = z3.Or(e.get(S0, s.cm) == 1, e.get(S0, s.cm) == 2)
        cln = z3.Not(nocl)
        if full:
            for nm, g in s.invariant(S1): e.prove(nm, g, S1)
            e.prove('the count does not exceed the capacity', IMP(s.invariant(S1)[1][1], e.get(S1, s.cnt) <= s.MC), S1)
            e.prove('failure only when every cluster is in use', IMP(NOT(r), FA(c, IMP(rngc(c), s.A(S1, c)), s.A(S1, c))), S1)
            e.prove('failure only when no cluster has the class', IMP(NOT(r), FA(c, IMP(rngc(c), s.at(S1, s.lab, c) != s.label), s.at(S1, s.lab, c))), S1)
            e.prove('failure only when no replacement is allowed', IMP(NOT(r), NOT(OR(e.get(S0, s.cm) == 0, e.get(S0, s.cm) == 2))), S1)
            for n, k in list(s.clkeys.items()) + [('in use', s.act), ('count', s.cnt)]:
                e.prove(f'failure changes no cluster: {n}', IMP(NOT(r), unchanged(e, S0, S1, k)), S1)
        else:
            s.absorb(S0, S1, G0, sums, row, r)
        frame(e, S0, S1, s.this, skip=[k[1] for k in s.clkeys.values()] + [s.act[1], s.cnt[1], s.time[1]])
        e.prove('the point is unchanged', unchanged(e, S0, S1, s.xk), S1)
        ck.cover(e, S1)
    return t


def absorb(s, S0, S1, G0, sums, row, r):
    e = s.eng
    if not hasattr(s, 'search'): raise Unsupported('the search is not a call of find_nearest_clusters')
    b, w, AS = s.search
    c, c2, j = qv('c'), qv('c'), qv('j')
    rng = lambda c: AND(c >= 0, c < s.MC)
    v0, v1 = (lambda n, c: s.at(S0, s.clkeys[n], c)), (lambda n, c: s.at(S1, s.clkeys[n], c))
    t1 = e.get(S1, s.time)
    As, A1 = (lambda c: z3.Select(AS, c)), (lambda c: s.A(S1, c))
    e.prove('time advances by one', t1 == e.get(S0, s.time) + 1, S1)
    e.prove('before the search clusters are only retired', FA(c, IMP(As(c), s.A(S0, c)), As(c)), S1)
    e.prove('without cleaning no cluster is retired', IMP(NOT(OR(e.get(S0, s.cm) == 1, e.get(S0, s.cm) == 2)), FA(c, IMP(rng(c), As(c) == s.A(S0, c)), As(c))), S1)
    P = lambda c: AND(As(c), v0('lab', c) == s.label)
    due = AND(b != w, OR(v0('err', w) <= 1, v0('err', b) <= 1))
    H = AND(w >= 0, NOT(due))
    g = lambda nm, x: e.prove('absorbed: ' + nm, IMP(H, x), S1)
    g('a cluster of the class at the smallest distance', AND(rng(w), P(w), FA(c2, IMP(AND(rng(c2), P(c2)), s.DIST(w) <= s.DIST(c2)), s.DIST(c2))))
    g('one more point', v1('n', w) == v0('n', w) + 1)
    g('sum of times', v1('ts', w) == v0('ts', w) + t1)
    g('sum of squared times', v1('tsq', w) == v0('tsq', w) + s.rm(t1, t1))
    for n, inc in sums.items(): g(f'{n} of features', FA(j, IMP(AND(j >= 0, j < s.F), row(S1, n, w, j) == row(S0, n, w, j) + inc(j))))
    g('errors decrease when another class is nearer, otherwise increase', z3.If(b == w, v1('err', w) == v0('err', w) + 1, AND(v1('err', w) == v0('err', w) - 1, v1('err', b) == v0('err', b) - 1)))
    g('the error of every other cluster is kept', FA(c, IMP(AND(rng(c), c != w, c != b), v1('err', c) == v0('err', c))))
    for n, k in s.clkeys.items():
        if n in ('err',): continue
        g(f'every other cluster is kept: {n}', FA(c, IMP(AND(rng(c), c != w), v1(n, c) == v0(n, c)) if '[]' != k[1][-1] else IMP(AND(rng(c), c != w, j >= 0, j < s.F), row(S1, n, c, j) == row(S0, n, c, j))) if k[1][-1] != '[]' else
          FA([c, j], IMP(AND(rng(c), c != w, j >= 0, j < s.F), row(S1, n, c, j) == row(S0, n, c, j))))
    for n in ('lab', 't0'): g(f'the cluster keeps its {n}', v1(n, w) == v0(n, w))
    g('the clusters in use stay in use', FA(c, IMP(rng(c), A1(c) == As(c))))
    g('training succeeds', r)
    # a new class
    H = AND(w < 0, r)
    d = e.fresh('slot', z3.IntSort())
    new = lambda c: AND(rng(c), A1(c), v1('lab', c) == s.label, v1('n', c) == 1, v1('ts', c) == t1, v1('tsq', c) == s.rm(t1, t1), v1('t0', c) == t1, v1('err', c) == e.get(S0, s.thr),
                        *[FA(j, IMP(AND(j >= 0, j < s.F), row(S1, n, c, j) == inc(j))) for n, inc in sums.items()])
    e.prove('a new class starts a cluster holding exactly the point', IMP(H, z3.Exists(c, AND(new(c), OR(NOT(As(c)), FA(c2, IMP(rng(c2), As(c2))))))), S1)
    slot = lambda c: AND(A1(c), v1('lab', c) == s.label)
    e.prove('only one cluster starts', IMP(H, FA([c, c2], IMP(AND(rng(c), rng(c2), slot(c), slot(c2)), c == c2))), S1)
    for n, k in s.clkeys.items():
        x = SEL(e.get(S0, k), c, *([j] if k[1][-1] == '[]' else []))
        y = SEL(e.get(S1, k), c, *([j] if k[1][-1] == '[]' else []))
        e.prove(f'a new class: every other cluster is kept: {n}', IMP(H, FA([c, j], IMP(AND(rng(c), NOT(slot(c)), j >= 0, j < s.F, OR(As(c), A1(c))), x == y))), S1)
    e.prove('a new class: every other cluster stays', IMP(H, FA(c, IMP(AND(rng(c), NOT(slot(c))), A1(c) == As(c)))), S1)


M.absorb = absorb
ASSUME = ['features are double', 'fewer than 2^32-2 points per cluster, error counts and threshold within int', 'division and participation are functions of their operands (no claim about which cluster a split or a replacement picks)']
base = dict(headers=[HDR], native='mc_nn.cpp', programs=[PROG], assumptions=ASSUME)
SPECS = {
    'C18': dict(base, tasks=[('find_nearest_clusters', find3), ('predict', predict), ('constructor', new)]),
    'C19': dict(base, tasks=[('constructor', new), ('count_clusters', getter), ('split', split), ('train', train(True))]),
    'C20': dict(base, tasks=[('find_nearest_clusters of a class', find4), ('train', train(False))]),
}
