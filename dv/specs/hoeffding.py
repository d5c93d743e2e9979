"""Contracts of src/hoeffding_tree.hpp (C24, C25, C26, C27)."""
from lib import *
T_ = T

HDR = 'hoeffding_tree.hpp'
PRE = '#include <limits>\n#include <cstddef>\nstruct Fn{ static double log(double); static double log2(double); static double sqrt(double); static bool isnan(double); };'
INST = 'template class HoeffdingTree<double, 5, 3, 100000, Fn>; inline void use_(int* p){ HoeffdingTree<double, 5, 3, 100000, Fn> a(0.1, p); }'
PROG = dict(header=HDR, inst=INST, pre=PRE)
R, I = z3.RealSort(), z3.IntSort()
GN = ('ghost_nodes', ())


def ptr1(v):
    """the single target of a pointer value (or of a reference to it)"""
    if isinstance(v, Ptr) and len(v.alts) == 1 and v.alts[0][1] is not None: return v.alts[0][1]
    raise Unsupported('pointer with several targets')


class H:
    """Nodes are a heap: node number k of the buffer has address NB + k.  The counters of a leaf are block k = -split_feature, with the
    cells count, limit(i), gain sum(i), counter(label, position); task 'layout' proves from the code that these cells never overlap."""
    def __init__(s, ck, abstract=True, nan=False):
        s.ck, s.nan = ck, nan
        s.prog = ck.prog(HDR, INST, pre=PRE)
        s.FC, s.LC, s.MS = Int('feature_count'), Int('label_count'), Int('max_size')
        s.eng = e = ck.engine(s.prog, dict(feature_count=s.FC, label_count=s.LC, max_size=s.MS))
        e.assume(AND(s.FC >= 1, s.FC < 2 ** 20, s.LC >= 1, s.LC < 2 ** 20, s.MS >= 1, s.MS < 2 ** 30))
        s.mul, s.rm = Mul(e), RMul(e, assoc=False)
        s.rec, s.nrec = s.prog.rec('HoeffdingTree'), s.prog.rec('Node')
        e.heap['Node'] = 'NH'
        s.this = obj(e, s.rec)
        s.nty = T('rec', rec=s.nrec, name='Node')
        for p, t in e.leaves(s.nty): e.leaf_ty[('NH', ('[]',) + p)] = t
        e.leaf_ty[GN] = I64
        s.NB = Int('buffer_base')
        e.assume(s.NB >= 1)
        n = lambda nm, pr, nth=0, arr=False: ('NH', ('[]', fld(s.prog, s.nrec, nm, pr, e, nth)) + (('[]',) if arr else ()))
        fl, it = (lambda t: t.k == 'float'), (lambda t: t.k == 'int')
        ar = lambda k: (lambda t: t.k == 'arr' and t.to.k == k)
        s.SF, s.SV, s.LB, s.UB, s.CH = n('split_feature', it), n('split_value', fl), n('l_box', ar('float'), 0, True), n('u_box', ar('float'), 1, True), n('children', ar('int'), 0, True)
        s.TR = n('tree', lambda t: t.k == 'ptr')
        h = lambda nm, pr, nth=0, arr=False: ('this', (fld(s.prog, s.rec, nm, pr, e, nth),) + (('[]',) if arr else ()))
        s.FS, s.SUM, s.DE = h('features_size', lambda t: t.k == 'arr' and t.to.k == 'int' and t.to.w == 32, 0, True), h('sum_feature_size', it, 2), h('delta', fl)
        s.OF, s.PR, s.BU = h('buffer_offset', it), h('buffer_preset', it, 1), h('buffer', lambda t: t.k == 'arr' and t.to.k == 'int' and t.to.w == 8, 0, True)
        # the typed cells of the blocks
        s.CNT, s.LIM, s.INF, s.CTR = ('BLK', ('count', '[]')), ('BLK', ('lim', '[]', '[]')), ('BLK', ('inf', '[]', '[]')), ('BLK', ('ctr', '[]', '[]', '[]'))
        for k, t in ((s.CNT, I32), (s.LIM, FLT), (s.INF, FLT), (s.CTR, I32)): e.leaf_ty[k] = t
        e.families['int'] = ('BLK', s.CTR[1], I32)
        e.ptr_hook = lambda lv: Ptr.to(s.this) if lv.key == s.TR else None
        e.ptr_store = s.ptr_store
        e.byte_hook = s.bytes
        s.S = State()
        s.S.mem[GN] = Int('nodes')
        e.assume(AND(Int('nodes') >= 0))
        s.SZ = e.size_of(s.nty)
        e.heap_valid = lambda rec, p, st: AND(p >= s.NB, p < s.NB + e.get(st, GN))
        s.LOG, s.LOG2, s.INV = z3.Function('log', R, R), z3.Function('log2', R, R), z3.Function('inv', R, R)
        e.fdiv = s.fdiv
        real = lambda eng, a, st: eng.convert(eng.ev(a[0], st), None, FLT)
        e.models['log'] = lambda eng, a, st, n: s.LOG(real(eng, a, st))
        e.models['log2'] = lambda eng, a, st, n: s.LOG2(real(eng, a, st))
        s.NAN = Real('NaN')
        e.assume(s.NAN < 0)
        e.models['isnan'] = lambda eng, a, st, n: real(eng, a, st) == s.NAN
        # bins and limits
        s.fs = e.get(s.S, s.FS)
        s.F = lambda f: SEL(s.fs, f)
        if abstract:
            s.ST = Sum(e, 'ST', lambda f: s.F(f), sort=I)
            f, a, b, q = qv('f'), qv('a'), qv('b'), qv('q')
            e.assume(FA(f, IMP(AND(f >= 0, f < s.FC), AND(s.F(f) >= 1, s.F(f) < 2 ** 20)), s.F(f)))
            e.assume(AND(s.ST(s.FC) < 2 ** 24))
            # lemma (induction on the feature): the bins of the features lie one after the other
            pf = Int('f_')
            for nm, G in (('bins', lambda x: s.ST(x)), ('limits', lambda x: s.ST(x) - x)):
                e.prove(f'lemma: the {nm} of a feature end where those of the next begin', IMP(AND(pf >= 0, pf < s.FC), AND(G(pf) <= G(pf + 1), G(IV(0)) == 0, s.ST(pf + 1) == s.ST(pf) + s.F(pf))), State())
                e.assume(FA([a, b], IMP(AND(0 <= a, a <= b, b <= s.FC), AND(G(a) >= 0, G(a) <= G(b))), z3.MultiPattern(s.ST(a), s.ST(b))))
            e.assume(FA(f, IMP(AND(f >= 0, f < s.FC), AND(s.ST.g(f) >= 0, s.ST(f) + s.F(f) <= s.ST(s.FC), s.ST(f) - f + s.F(f) - 1 <= s.ST(s.FC) - s.FC)), s.ST(f)))
            s.sum = e.get(s.S, s.SUM)
            e.assume(s.sum == s.ST(s.FC))
            s.NL = s.ST(s.FC) - s.FC
            first = AND(s.F(IV(0)) >= 1, s.F(IV(0)) <= s.ST(s.FC), s.ST(IV(0)) == 0)
            e.prove('lemma: the first feature has the first bins', IMP(s.ST(IV(0)) == s.ST(IV(0)), first), State())
            e.assume(first)
            # the feature of a bin, and of a limit
            s.FB, s.FL = z3.Function('feature_of_bin', I, I), z3.Function('feature_of_limit', I, I)

            def owner(FF, lo, hi, top):
                x = FF(q)
                e.assume(FA(q, IMP(AND(q >= 0, q < top), AND(x >= 0, x < s.FC, lo(x) <= q, q < hi(x), s.ST(x + 1) == s.ST(x) + s.F(x))), x))
                pq, pg = Int('q_'), Int('g_')
                law = lambda q, g: IMP(AND(q >= 0, q < top, g >= 0, g <= s.FC), AND(IMP(lo(g) <= q, g <= FF(q)), IMP(q < lo(g), FF(q) < g), IMP(AND(g < s.FC, q < hi(g)), FF(q) <= g)))
                e.prove('lemma: order of the features of bins and limits', IMP(AND(s.ST(FF(pq) + 1) == s.ST(FF(pq)) + s.F(FF(pq)), s.ST(pg + 1) == s.ST(pg + 1), IMP(pg < s.FC, s.ST(pg + 1) == s.ST(pg) + s.F(pg))), law(pq, pg)), State())
                e.assume(FA([q, a], law(q, a), z3.MultiPattern(FF(q), s.ST(a))))
            owner(s.FB, lambda x: s.ST(x), lambda x: s.ST(x) + s.F(x), s.ST(s.FC))
            owner(s.FL, lambda x: s.ST(x) - x, lambda x: s.ST(x) - x + s.F(x) - 1, s.NL)
            s.contracts()
            e.inv_hooks.append(s.base_cands)

    # ---- models
    def fdiv(s, a, b, st):
        if z3.is_rational_value(z3.simplify(b)): return a / b
        return z3.If(AND(a == 0, b == 0), s.NAN, s.div(a, b)) if s.nan else s.div(a, b)

    def div(s, a, b):
        if z3.is_rational_value(z3.simplify(b)): return a / b
        d, c = s.rm.lin(b)
        if not c and len(d) == 1:
            (at, co), = d.values()
            q = s.rm(a if co == 1 else z3.simplify(a / z3.RealVal(co)), s.INV(at))
        else: q = s.rm(a, s.INV(b))
        return q

    def ptr_store(s, lv, v, st):
        if lv.key != s.TR: return False
        l = ptr1(v)
        if l.root != 'this' or l.path: raise Unsupported('a node of another tree')
        return True

    def bytes(s, v, to, st, e):
        if not s.eng.is_heap(to): return None
        r = IV(0)
        gn = s.eng.get(st, GN)
        for g, l in v.alts:
            if l is None: continue
            if l.root != 'this' or l.path != s.BU[1]: raise Unsupported('a node outside the buffer')
            ix = z3.simplify(l.idx[-1])
            if z3.is_int_value(ix) and ix.as_long() == 0 and len(v.alts) == 1 and e['kind'] != 'CXXNewExpr': return s.NB
            # the next node: its place is the first free one
            s.eng.safety('a new node takes the next place of the buffer', IMP(g, l.idx[-1] == s.mul(gn, s.SZ)), st)
            r = z3.If(g, s.NB + gn, r)
            st.mem[GN] = z3.simplify(z3.If(g, gn + 1, gn))
        return r

    # ---- access
    def at(s, S, k, *ix): return SEL(s.eng.get(S, k), *ix)
    def sf(s, S, a): return s.at(S, s.SF, a)
    def leaf(s, S, a): return s.sf(S, a) < 0
    def inf(s, f): return AND(f >= 0, f < s.FC)
    def valid(s, S, a): return AND(a >= s.NB, a < s.NB + s.eng.get(S, GN))

    def contracts(s, *only):
        e = s.eng
        node = lambda this: this.idx[0]
        isleaf = lambda eng, this, st: ('the node is a leaf', s.leaf(st, node(this)))

        def counters(eng, this, vals, st):
            l = eng.read(vals[0].alts, st) if isinstance(vals[0], LVs) else vals[0]
            return Ptr.to(LV('BLK', s.CTR[1], [-s.sf(st, node(this)), l, IV(0)], I32, s.ST(s.FC)))

        def crequires(eng, this, vals, st):
            l = eng.read(vals[0].alts, st) if isinstance(vals[0], LVs) else vals[0]
            return [isleaf(eng, this, st), ('the label exists', AND(l >= 0, l < s.LC))]

        def informations(eng, this, vals, st):
            k = -s.sf(st, node(this))
            eng.write(vals[0].alts, Ptr.to(LV('BLK', s.CNT[1], [k], I32)), st)
            eng.write(vals[1].alts, Ptr.to(LV('BLK', s.LIM[1], [k, IV(0)], FLT, s.NL)), st)
            eng.write(vals[2].alts, Ptr.to(LV('BLK', s.INF[1], [k, IV(0)], FLT, s.NL)), st)

        def reset(eng, this, vals, st):
            k = -s.sf(st, node(this))
            Z = lambda z, n: z if n == 0 else z3.K(I, Z(z, n - 1))
            for key, z, n in ((s.CNT, IV(0), 0), (s.LIM, z3.RealVal(0), 1), (s.INF, z3.RealVal(0), 1), (s.CTR, IV(0), 2)):
                st.mem[key] = z3.Store(eng.get(st, key), k, Z(z, n))
        s.T = Int('counters_size')
        e.assume(AND(s.T >= 1, s.T <= s.MS))
        # whole blocks: a multiple of T
        s.WHOLE, BLK = z3.Function('whole_blocks', I, z3.BoolSort()), z3.Function('blocks', I, I)
        x = qv('x')
        e.assume(FA(x, IMP(AND(s.WHOLE(x), x >= 0), AND(x == s.mul.M(BLK(x), s.T), BLK(x) >= 0)), s.WHOLE(x)))
        x0 = s.MS - e.get(s.S, s.PR)
        e.assume(AND(s.WHOLE(IV(0)), s.WHOLE(s.T), *[IMP(s.WHOLE(x0), s.WHOLE(x0 + i * s.T)) for i in (1, 2)]))
        for m in s.nrec.methods:
            if m.body is None: continue
            if m.name == 'get_counters': e.contracts[m.id] = Contract(requires=crequires, effect=counters)
            if m.name == 'get_informations': e.contracts[m.id] = Contract(requires=lambda eng, this, vals, st: [isleaf(eng, this, st)], effect=informations)
            if m.name == 'reset_counters': e.contracts[m.id] = Contract(requires=lambda eng, this, vals, st: [isleaf(eng, this, st), ('its block is inside the buffer', s.mul.M(-s.sf(st, node(this)), s.T) <= s.MS - eng.get(st, s.OF))], effect=reset)
            if m.name == 'compute_total_size_counters': e.contracts[m.id] = Contract(requires=(lambda eng, this, vals, st: [('for the features of the tree', vals[0] == s.ST(s.FC))]) if m.params else None, effect=lambda eng, this, vals, st: s.T)

    def base_cands(s, L):
        """positions of bins and limits as they advance with the feature; pointers to the counters"""
        out = []
        allk = [y for y in L.int_keys(None) if not y[0].endswith('#')]
        for n1, k1 in L.int_keys(True):
            for n2, k2 in allk:
                if k1 == k2: continue
                for c in (0, 1):
                    out.append((f'{n1}==ST({n2}+{c})', lambda S, k1=k1, k2=k2, c=c: L.val(S, k1) == s.ST(L.val(S, k2) + c)))
                    out.append((f'{n1}==ST({n2}+{c})-{n2}-{c}', lambda S, k1=k1, k2=k2, c=c: L.val(S, k1) == s.ST(L.val(S, k2) + c) - L.val(S, k2) - c))
                    out.append((f'{n1}=={n2}-{c}', lambda S, k1=k1, k2=k2, c=c: L.val(S, k1) == L.val(S, k2) - c))
        # arrays of pointers to the counters of a leaf, one per label
        for key in L.arr_keys():
            if key[1][-1] in ('@0', '@1', '@2'):
                base = (key[0], key[1][:-1])
                comp = lambda S, c, j, base=base: SEL(s.eng.get(S, (base[0], base[1] + (f'@{c}',))), j)
                if key[1][-1] == '@0' and isinstance(L.frame.this, LV):
                    out += prefix(L, f'{base[0]} of this leaf', lambda S, j, comp=comp: AND(comp(S, 0, j) == -s.sf(S, L.frame.this.idx[0]), comp(S, 1, j) == j, comp(S, 2, j) == 0),
                                  pats=lambda S, j, comp=comp: [comp(S, 0, j), comp(S, 1, j), comp(S, 2, j)])
        return out

    def wf(s, S):
        """the tree: nodes from the front of the buffer, counters of the leaves from its end"""
        e, b, b2 = s.eng, qv('a'), qv('b')
        n, of, pr = e.get(S, GN), e.get(S, s.OF), e.get(S, s.PR)
        c = lambda i: s.at(S, s.CH, b, IV(i))
        sf = lambda b: s.sf(S, b)
        X = s.MS - pr
        return [('the end of the buffer is made of whole blocks', s.WHOLE(X)),
                ('the nodes fill the front of the buffer', AND(n >= 1, of == s.mul(n, s.SZ), of >= 0)),
                ('front and end do not meet', AND(of <= pr, pr <= s.MS)),
                ('the children of a node come after it', FA(b, IMP(AND(s.valid(S, b), sf(b) >= 0), AND(sf(b) < s.FC, *[AND(c(i) > b - s.NB, c(i) < n) for i in (0, 1)])), sf(b))),
                ('the counters of a leaf are at the end of the buffer', FA(b, IMP(AND(s.valid(S, b), sf(b) < 0), s.mul.M(-sf(b), s.T) <= s.MS - pr), sf(b))),
                ('no two leaves share counters', FA([b, b2], IMP(AND(s.valid(S, b), s.valid(S, b2), sf(b) < 0, sf(b2) < 0, b != b2), sf(b) != sf(b2)), z3.MultiPattern(sf(b), sf(b2))))]

    def contract_sort(s, fn, leaf, same_point):
        def eff(eng, this, vals, st):
            eng.facts.append(AND(s.valid(st, leaf), s.leaf(st, leaf)))
            return leaf
        s.eng.contracts[fn.id] = Contract(requires=lambda eng, this, vals, st: [('of the same point', same_point(vals))] + s.wf(st), effect=eff)

    def counters_of(s, S, v, k, label=True):
        """goal: the pointers of the array v are those to the counters of block k"""
        l = ptr1(v)
        j = qv('l')
        c = lambda n: SEL(s.eng.get(S, (l.root, l.path + (f'@{n}',)), I64), l.idx[-1] + j)
        return FA(j, IMP(AND(j >= 0, j < s.LC), AND(c(0) == k, c(1) == j, c(2) == 0)), c(0), c(1), c(2))


def node(s, nm='leaf'):
    """an arbitrary node of the tree"""
    a = Int(nm)
    s.eng.assume(s.valid(s.S, a))
    return a, LV('NH', ('[]',), [a], s.nty)


def point(s):
    p = array(s.eng, 'features', FLT, s.FC)
    x = s.eng.get(s.S, ('features', ('[]',)))
    return p, (lambda f: SEL(x, f))


def train(ck):
    """one training of a leaf"""
    s = H(ck)
    e = s.eng
    a, this = node(s)
    p, x = point(s)
    lab = Int('label')
    k = -s.sf(s.S, a)
    e.assume(AND(lab >= 0, lab < s.LC, s.leaf(s.S, a), s.NL >= 2))
    sv = cell(e, 'split_value', FLT)
    S0 = s.S.copy()
    n0 = s.at(S0, s.CNT, k)
    e.assume(AND(n0 >= 0, n0 < 2 ** 31 - 1))
    f = s.prog.func(s.nrec, 'train')
    ck.under(f)
    lim = lambda i: s.at(S0, s.LIM, k, i)
    old = lambda l, q: s.at(S0, s.CTR, k, l, q)
    # the bin of the point for a feature: the limits of a feature are sorted
    BIN = z3.Function('bin', I, I)
    g, v, q, j = qv('f'), qv('v'), qv('q'), qv('j')
    e.assume(FA(g, IMP(s.inf(g), AND(BIN(g) >= 0, BIN(g) < s.F(g))), BIN(g)))
    e.assume(FA(v, IMP(AND(v >= 0, v < s.NL), (x(s.FL(v)) < lim(v)) == (v - (s.ST(s.FL(v)) - s.FL(v)) >= BIN(s.FL(v)))), lim(v)))
    HIT = z3.Function('bin_of_the_point', I, z3.BoolSort())
    hit = lambda q: q == s.ST(s.FB(q)) + BIN(s.FB(q))
    e.assume(FA(q, IMP(AND(q >= 0, q < s.ST(s.FC)), HIT(q) == hit(q)), HIT(q)))
    pos = qv('p')
    pg = Int('g_')
    e.prove('lemma: the bin of the point belongs to its feature', IMP(AND(s.inf(pg), BIN(pg) >= 0, BIN(pg) < s.F(pg), s.ST(pg) == s.ST(pg)), s.FB(s.ST(pg) + BIN(pg)) == pg), State())
    e.assume(FA([g, q], IMP(AND(s.inf(g), q >= 0, q < s.ST(s.FC), s.FB(q) == g), HIT(q) == (q == s.ST(g) + BIN(g))), z3.MultiPattern(HIT(q), BIN(g))))
    one = lambda c: z3.If(c, IV(1), IV(0))
    b = qv('a')
    # counts stay in the type
    l = qv('l')
    e.assume(FA([l, q], IMP(AND(l >= 0, l < s.LC, q >= 0, q < s.ST(s.FC)), AND(old(l, q) >= 0, old(l, q) <= n0)), old(l, q)))
    GAIN, AVG = z3.Function('GAIN', I, R), z3.Function('AVG', I, R)
    cnt = z3.ToReal(n0 + 1)
    e.assume(FA(j, AVG(j) == s.fdiv(s.at(S0, s.INF, k, j) + GAIN(j), cnt, None), AVG(j)))
    ctr_ok = lambda S, below=None: FA(q, IMP(AND(q >= 0, q < s.ST(s.FC)), s.at(S, s.CTR, k, lab, q) == old(lab, q) + one(AND(HIT(q), q < below) if below is not None else HIT(q))), s.at(S, s.CTR, k, lab, q))
    rest_ok = lambda S: AND(FA([b, l, q], IMP(OR(b != k, l != lab), s.at(S, s.CTR, b, l, q) == s.at(S0, s.CTR, b, l, q)), s.at(S, s.CTR, b, l, q)),
                            FA(q, IMP(OR(q < 0, q >= s.ST(s.FC)), s.at(S, s.CTR, k, lab, q) == old(lab, q)), s.at(S, s.CTR, k, lab, q)))

    # contract of the information gain
    def gain(eng, this2, vals, st):
        o = ptr1(vals[-1])
        arr = eng.get(st, o.key)
        new = eng.fresh('gain', arr.sort())
        eng.facts.append(FA(j, IMP(AND(j >= 0, j < s.NL), SEL(new, o.idx[-1] + j) == GAIN(j)), SEL(new, o.idx[-1] + j)) if not (z3.is_int_value(o.idx[-1]) and o.idx[-1].as_long() == 0)
                         else FA(j, IMP(AND(j >= 0, j < s.NL), SEL(new, j) == GAIN(j)), SEL(new, j)))
        st.mem[o.key] = new

    def gain_req(eng, this2, vals, st):
        out = [('of this leaf', this2.idx[0] == a), ('after counting the point', AND(s.at(st, s.CNT, k) == n0 + 1, ctr_ok(st))), ('the other counters are as before', rest_ok(st))]
        if len(vals) == 3: out += [('with the counters of this leaf', s.counters_of(st, vals[1], k)), ('with the number of points of this leaf', eng.convert(vals[0], None, FLT) == cnt)]
        return out
    for m in s.nrec.methods:
        if m.name == 'compute_information_gain' and m.body: e.contracts[m.id] = Contract(requires=gain_req, effect=gain)

    mine = lambda S, key, kk: SEL(e.get(S, key), kk)

    def cands(L):
        out = []
        M = L.mods
        ints = [y for y in L.int_keys(None) if not y[0].endswith('#')]
        for n1, k1 in ints if s.CTR in M or s.INF not in M else []:
            v1 = lambda S, k1=k1: L.val(S, k1)
            for c in (0, 1):
                out.append((f'counted for the features below {n1}+{c}', lambda S, v1=v1, c=c: ctr_ok(S, s.ST(v1(S) + c))))
            out.append((f'counted below {n1}', lambda S, v1=v1: ctr_ok(S, v1(S))))
            for n2, k2 in L.int_keys(True):
                out.append((f'{n2} not past the bin for {n1}', lambda S, v1=v1, k2=k2: L.val(S, k2) <= BIN(v1(S))))
            for nb, kb in L.bool_keys(True):
                for sg in (True, False):
                    out.append((f'counted below {n1} and, by {nb}={sg}, at {n1}', lambda S, v1=v1, kb=kb, sg=sg:
                                z3.If(e.get(S, kb) if sg else NOT(e.get(S, kb)), ctr_ok(S, s.ST(v1(S) + 1)), ctr_ok(S, s.ST(v1(S))))))
                    out.append((f'{nb} is {sg}', lambda S, kb=kb, sg=sg: e.get(S, kb) if sg else NOT(e.get(S, kb))))
        out.append(('other counters kept', rest_ok))
        out.append(('count incremented', lambda S: s.at(S, s.CNT, k) == n0 + 1))
        # boxes
        hull = lambda S, f: AND(s.at(S, s.UB, a, f) == z3.If(s.at(S0, s.UB, a, f) < x(f), x(f), s.at(S0, s.UB, a, f)), s.at(S, s.LB, a, f) == z3.If(s.at(S0, s.LB, a, f) > x(f), x(f), s.at(S0, s.LB, a, f)))
        kept = lambda S, f: AND(s.at(S, s.UB, a, f) == s.at(S0, s.UB, a, f), s.at(S, s.LB, a, f) == s.at(S0, s.LB, a, f))
        if s.UB in M or s.LB in M: out += prefix(L, 'boxes widened', hull, pats=lambda S, j: [s.at(S, s.UB, a, j), s.at(S, s.LB, a, j)], hi=s.FC)
        if s.UB in M or s.LB in M: out += prefix(L, 'boxes as before', kept, pats=lambda S, j: [s.at(S, s.UB, a, j), s.at(S, s.LB, a, j)], hi=s.FC)
        f_ = qv('f')
        for key in (s.UB, s.LB):
            out.append((f'other boxes kept {key[1]}', lambda S, key=key: FA([b, f_], IMP(OR(b != a, f_ < 0, f_ >= s.FC), s.at(S, key, b, f_) == s.at(S0, key, b, f_)), s.at(S, key, b, f_))))
        # gain sums
        info = lambda S, j: s.at(S, s.INF, k, j)
        if s.INF in M: out += prefix(L, 'gain sums updated', lambda S, j: info(S, j) == s.at(S0, s.INF, k, j) + GAIN(j), pats=lambda S, j: [info(S, j)], hi=s.NL)
        if s.INF in M: out += prefix(L, 'gain sums as before', lambda S, j: info(S, j) == s.at(S0, s.INF, k, j), pats=lambda S, j: [info(S, j)], hi=s.NL)
        out.append(('other gain sums kept', lambda S: AND(FA([b, j], IMP(b != k, s.at(S, s.INF, b, j) == s.at(S0, s.INF, b, j)), s.at(S, s.INF, b, j)), FA(j, IMP(OR(j < 0, j >= s.NL), info(S, j) == s.at(S0, s.INF, k, j)), info(S, j)))))
        for nm, key in float_arrays(L):
            A = lambda S, j, key=key: SEL(e.get(S, key), j)
            if key in M: out += prefix(L, f'{nm} averaged', lambda S, j, A=A: A(S, j) == AVG(j), pats=lambda S, j, A=A: [A(S, j)], hi=s.NL)
            if key in M: out += prefix(L, f'{nm} is the gain', lambda S, j, A=A: A(S, j) == GAIN(j), pats=lambda S, j, A=A: [A(S, j)], hi=s.NL)
            # the best two
            terms = [(n, lambda S, kk=kk: L.val(S, kk)) for n, kk in L.int_keys(True)]
            for fr in e.frames:
                for d in fr.order:
                    root, ty = fr.locals[d]
                    if ty.k == 'arr' and ty.to.k == 'int' and (root, ('[]',)) in L.mods:
                        for c in (0, 1): terms.append((f'{root}[{c}]', lambda S, root=root, c=c: SEL(e.get(S, (root, ('[]',))), c)))
            for t1, b1 in terms:
                out.append((f'{t1} is an index', lambda S, b1=b1: AND(b1(S) >= 0, b1(S) < s.NL)))
                for n1, k1 in L.int_keys(True):
                    out.append((f'{t1} below {n1}', lambda S, b1=b1, k1=k1: b1(S) < L.val(S, k1)))
                    out.append((f'{t1} is the best below {n1}', lambda S, b1=b1, A=A, k1=k1: FA(j, IMP(AND(j >= 0, j < L.val(S, k1)), AVG(j) <= AVG(b1(S))), AVG(j))))
                    for t2, b2 in terms:
                        if t2 != t1: out.append((f'{t2} is the second best below {n1} after {t1}', lambda S, b1=b1, b2=b2, A=A, k1=k1: AND(b1(S) != b2(S), FA(j, IMP(AND(j >= 0, j < L.val(S, k1), j != b1(S)), AVG(j) <= AVG(b2(S))), AVG(j)))))
        # the feature of the best limit
        for n1, k1 in ints:
            for n2, k2 in L.int_keys(True):
                if k1 != k2: out.append((f'{n1} not before the limits of {n2}', lambda S, k1=k1, k2=k2: L.val(S, k1) >= s.ST(L.val(S, k2)) - L.val(S, k2)))
        for fr in e.frames:
            for d in fr.order:
                root, ty = fr.locals[d]
                if ty.k == 'arr' and ty.to.k == 'int':
                    for n2, k2 in L.int_keys(True):
                        out.append((f'{root}[0] not before the limits of {n2}', lambda S, root=root, k2=k2: SEL(e.get(S, (root, ('[]',))), 0) >= s.ST(L.val(S, k2)) - L.val(S, k2)))
        return out
    e.inv_hooks.append(cands)
    # the best and the second best candidate
    B1, B2 = Int('best'), Int('second')
    e.assume(AND(B1 >= 0, B1 < s.NL, B2 >= 0, B2 < s.NL, B1 != B2))
    e.assume(FA(j, IMP(AND(j >= 0, j < s.NL), AND(AVG(j) <= AVG(B1), IMP(j != B1, AVG(j) <= AVG(B2)))), AVG(j)))
    eps = s.fdiv(4 * s.LOG(s.fdiv(z3.RealVal(1), e.get(S0, s.DE), None)), 2 * cnt, None)
    e.assume(eps >= 0)
    e.assumptions.add('the Hoeffding bound is not negative (delta at most 1)')
    r = e.invoke(f, this, [p, lab, LVs(sv.alts)], s.S)
    S = s.S
    what = ck.label.split()[-1]
    if 'count' in ck.label:
        e.prove('the leaf counts one more point', s.at(S, s.CNT, k) == n0 + 1, S)
        e.prove('every feature counts the point once, in its bin, for its label', ctr_ok(S), S)
        e.prove('no other counter changes', rest_ok(S), S)
        e.prove('no other leaf counts the point', FA(b, IMP(b != k, s.at(S, s.CNT, b) == s.at(S0, s.CNT, b)), s.at(S, s.CNT, b)), S)
        e.prove('limits unchanged', unchanged(e, S0, S, s.LIM), S)
        f_ = qv('f')
        hull = lambda lo, x_, key, up: s.at(S, key, a, f_) == z3.If(up, s.at(S0, key, a, f_), x(f_))
        e.prove('the box contains the point and no more: above', FA(f_, IMP(s.inf(f_), s.at(S, s.UB, a, f_) == z3.If(s.at(S0, s.UB, a, f_) >= x(f_), s.at(S0, s.UB, a, f_), x(f_))), s.at(S, s.UB, a, f_)), S)
        e.prove('the box contains the point and no more: below', FA(f_, IMP(s.inf(f_), s.at(S, s.LB, a, f_) == z3.If(s.at(S0, s.LB, a, f_) <= x(f_), s.at(S0, s.LB, a, f_), x(f_))), s.at(S, s.LB, a, f_)), S)
        for key in (s.UB, s.LB):
            e.prove('other boxes unchanged', FA([b, f_], IMP(b != a, s.at(S, key, b, f_) == s.at(S0, key, b, f_)), s.at(S, key, b, f_)), S)
        for key in (s.SF, s.SV, s.CH): e.prove('tree structure unchanged', unchanged(e, S0, S, key), S)
        frame(e, S0, S, s.this)
    else:
        split = AND(s.rm(AVG(B1) - AVG(B2), AVG(B1) - AVG(B2)) > eps, AVG(B1) > 0)
        e.prove('the gain of the point is added to the sums', FA(j, IMP(AND(j >= 0, j < s.NL), s.at(S, s.INF, k, j) == s.at(S0, s.INF, k, j) + GAIN(j)), s.at(S, s.INF, k, j)), S)
        e.prove('the sums of the other leaves are unchanged', FA([b, j], IMP(b != k, s.at(S, s.INF, b, j) == s.at(S0, s.INF, b, j)), s.at(S, s.INF, b, j)), S)
        e.prove('a split is suggested only when the best candidate is positive and beats the second by the bound', IMP(r >= 0, split), S)
        e.prove('a split is suggested whenever it does', IMP(split, r >= 0), S)
        e.prove('the suggested feature is the one of the best limit', IMP(r >= 0, r == s.FL(B1)), S)
        e.prove('the suggested value is the best limit', IMP(r >= 0, s.at(S, ('split_value', ())) == lim(B1)), S)
        e.prove('the answer is a feature or minus one', AND(r >= -1, r < s.FC), S)
    ck.cover(e, S)



class Gain:
    """the textbook gain of a candidate limit, over the counters of block k"""
    def __init__(g, s, k, S0, count, entropies=True):
        """count: number of points of the leaf, a real"""
        e = s.eng
        g.s, g.k = s, k
        l, q, a, b, n, i = qv('l'), qv('q'), qv('a'), qv('b'), qv('n'), qv('i')
        c = lambda l, q: s.at(S0, s.CTR, k, l, q)
        g.c = c
        e.assume(FA([l, q], IMP(AND(l >= 0, l < s.LC, q >= 0, q < s.ST(s.FC)), c(l, q) >= 0), c(l, q)))
        g.CUM = CUM = Sum(e, 'CUM', lambda l, q: z3.If(AND(l >= 0, l < s.LC, q < s.ST(s.FC)), c(l, q), IV(0)), nparams=1, sort=I)
        # lemma (induction on the end): partial sums of counts grow
        pl, pb = Int('l_'), Int('b_')
        e.prove('lemma: partial sums of the counters grow', AND(IMP(AND(pl >= 0, pl < s.LC, pb >= 0, pb < s.ST(s.FC)), CUM(pl, pb) <= CUM(pl, pb + 1)), CUM(pl, IV(0)) == 0), State())
        e.assume(FA([l, a, b], IMP(AND(l >= 0, l < s.LC, 0 <= a, a <= b, b <= s.ST(s.FC)), AND(CUM(l, a) >= 0, CUM(l, a) <= CUM(l, b))), z3.MultiPattern(CUM(l, a), CUM(l, b))))
        e.assume(FA(l, IMP(AND(l >= 0, l < s.LC), CUM(l, s.ST(s.FC)) < 2 ** 31), CUM(l, s.ST(s.FC))))
        e.assume(FA([l, a], IMP(AND(l >= 0, l < s.LC, 0 <= a, a <= s.ST(s.FC)), AND(CUM(l, a) >= 0, CUM(l, a) <= CUM(l, s.ST(s.FC)))), CUM(l, a)))
        e.assumptions.add('the counters of a label in a leaf sum to less than 2^31 over all bins')
        x, y = qv('x', R), qv('y', R)
        e.assume(FA(y, IMP(y > 0, s.INV(y) > 0), s.INV(y)))
        e.assume(FA([x, y], AND(IMP(AND(x > 0, y > 0), s.rm.M(x, y) > 0), IMP(OR(x == 0, y == 0), s.rm.M(x, y) == 0)), s.rm.M(x, y)))
        # a counter and what comes before it is part of any longer sum (instance of the two lemmas above)
        e.assume(FA([l, q, b], IMP(AND(l >= 0, l < s.LC, q >= 0, q < b, b <= s.ST(s.FC)), CUM(l, q) + c(l, q) <= CUM(l, b)), z3.MultiPattern(CUM(l, q), c(l, q), CUM(l, b))))
        # number of points of label l in the bins [a, b)
        g.N = N = lambda l, a, b: z3.ToReal(CUM(l, b) - CUM(l, a))
        pos = lambda x: z3.If(x > 0, x, z3.RealVal(0))
        g.TS = Sum(e, 'TS', lambda a, b, l: N(l, a, b), nparams=2)
        e.assume(FA([a, b, n], g.TS(a, b, n) == g.TS.g(a, b, n), g.TS.f(a, b, n)))
        # lemma (induction on the labels): a part is at most the total
        xlog = lambda x, t: z3.If(x > 0, s.rm(s.div(x, t), s.LOG2(s.div(x, t))), z3.RealVal(0))
        g.PS = Sum(e, 'PS', lambda a, b, l: xlog(N(l, a, b), g.TS(a, b, s.LC)), nparams=2)
        pa = Int('a_')
        e.prove('lemma: totals over the labels grow', IMP(AND(pl >= 0, pl < s.LC, 0 <= pa, pa <= pb, pb <= s.ST(s.FC)), AND(g.TS(pa, pb, pl + 1) == g.TS(pa, pb, pl) + N(pl, pa, pb), N(pl, pa, pb) >= 0)), State())
        e.assume(FA([a, b, l], IMP(AND(0 <= a, a <= b, b <= s.ST(s.FC), l >= 0, l <= s.LC), AND(g.TS(a, b, l) >= 0, g.TS(a, b, l) <= g.TS(a, b, s.LC))), g.TS.f(a, b, l)))
        e.assume(FA([a, b, l], IMP(AND(0 <= a, a <= b, b <= s.ST(s.FC), l >= 0, l < s.LC), AND(N(l, a, b) >= 0, N(l, a, b) <= g.TS(a, b, s.LC))), z3.MultiPattern(CUM(l, a), CUM(l, b), g.TS.f(a, b, s.LC))))
        if not entropies: return
        share = lambda t, tt: z3.If(t > 0, s.div(t, tt), z3.RealVal(0))
        g.ENT = z3.Function('ENT', I, I, I, R)     # entropy of the bins [a, b) cut at m
        m = qv('m')
        L_, R_ = g.TS(a, m, s.LC), g.TS(m, b, s.LC)
        e.assume(FA([a, m, b], g.ENT(a, m, b) == -s.rm(g.PS(a, m, s.LC), share(L_, L_ + R_)) - s.rm(g.PS(m, b, s.LC), share(R_, L_ + R_)), g.ENT(a, m, b)))
        # the entropy of the labels of the leaf
        F0 = s.F(IV(0))
        g.LS = Sum(e, 'LS', lambda l: xlog(N(l, IV(0), F0), count))
        g.H = -g.LS(s.LC)
        e.assume(FA(l, IMP(AND(l >= 0, l < s.LC), N(l, IV(0), F0) <= count), CUM(l, F0)))
        # the entropy of limit i
        g.cut = lambda i: (s.ST(s.FL(i)), i + s.FL(i) + 1, s.ST(s.FL(i)) + s.F(s.FL(i)))
        g.E = z3.Function('E', I, R)
        e.assume(FA(i, IMP(AND(i >= 0, i < s.NL), g.E(i) == g.ENT(*g.cut(i))), g.E(i)))

    def pre(g, st):
        s = g.s
        return [('the tree is unchanged', AND(*[same_arr(s.eng, st, g.S0, k) for k in (s.CTR, s.FS)]))] if False else []

    def cands(g, L):
        s, e = g.s, g.s.eng
        out = []
        ints = [y for y in L.int_keys(None) if not y[0].endswith('#')]
        mods = [y for y in L.int_keys(True) if not y[0].endswith('#')]
        for fr in e.frames:
            for d in fr.order:
                root, ty = fr.locals[d]
                nm = e.prog.nodes.get(d, {}).get('name') or str(d)
                if ty.k != 'arr': continue
                if ty.to.k == 'arr' and ty.to.to.k in ('int', 'float'):      # counts of both sides
                    key = (root, ('[]', '[]'))
                    if key not in L.mods: continue
                    acc = [(f'{nm}[{c}]', lambda S, j, c=c, key=key: SEL(e.get(S, key), IV(c), j), ty.to.to.k) for c in (0, 1)]
                elif ty.to.k in ('int', 'float') and (root, ('[]',)) in L.mods:
                    acc = [(nm, lambda S, j, key=(root, ('[]',)): SEL(e.get(S, key), j), ty.to.k)]
                else: continue
                g.array_cands(L, acc, mods, out)
        return out

    def array_cands(g, L, acc, mods, out):
        s, e = g.s, g.s.eng
        cnt = lambda kind, l, a, b: (g.CUM(l, b) - g.CUM(l, a)) if kind == 'int' else g.N(l, a, b)
        for nm, at, kind in acc:
            zero = IV(0) if kind == 'int' else z3.RealVal(0)
            lab = qv('l')
            out.append((f'{nm} unchanged', lambda S, at=at, lab=lab: FA(lab, at(S, lab) == at(L.pre, lab), at(S, lab))))
            for (na, a), (nb, b) in g.parts(L):
                for inm, ik in mods:
                    iv = lambda S, ik=ik: L.val(S, ik)
                    lab = qv('l')
                    out.append((f'{nm} counts [{na},{nb}) for labels below {inm}', lambda S, at=at, a=a, b=b, iv=iv, kind=kind: FA(lab, IMP(AND(lab >= 0, lab < iv(S)), at(S, lab) == cnt(kind, lab, a(S), b(S))), at(S, lab))))
                    out.append((f'{nm} counts [{na},{nb}) for labels from {inm}', lambda S, at=at, a=a, b=b, iv=iv, kind=kind: FA(lab, IMP(AND(lab >= iv(S), lab < s.LC), at(S, lab) == cnt(kind, lab, a(S), b(S))), at(S, lab))))
                lab = qv('l')
                out.append((f'{nm} counts [{na},{nb})', lambda S, at=at, a=a, b=b, kind=kind: FA(lab, IMP(AND(lab >= 0, lab < s.LC), at(S, lab) == cnt(kind, lab, a(S), b(S))), at(S, lab))))
                # the label being counted
                for n2, k2 in g.labels(L):
                    l2 = L.val(L.pre, k2)
                    out.append((f'{nm} counts [{na},{nb}) for label {n2}', lambda S, at=at, a=a, b=b, l2=l2, kind=kind: at(S, l2) == cnt(kind, l2, a(S), b(S))))
            for inm, ik in mods:
                lab = qv('l')
                out.append((f'{nm} zero for labels from {inm}', lambda S, at=at, ik=ik, zero=zero: FA(lab, IMP(AND(lab >= L.val(S, ik), lab < s.LC), at(S, lab) == zero), at(S, lab))))
            for n2, k2 in g.labels(L):
                l2 = L.val(L.pre, k2)
                lab = qv('l')
                out.append((f'{nm} same but for label {n2}', lambda S, at=at, l2=l2: FA(lab, IMP(lab != l2, at(S, lab) == at(L.pre, lab)), at(S, lab))))

    def cuts(g, L):
        """positions of bins: the start of the feature, its end, and the cuts the counters of the loops stand for"""
        s = g.s
        ints = [y for y in L.int_keys(None) if not y[0].endswith('#')]
        out = [('start', lambda S: g.start), ('end', lambda S: g.end)]
        fixed = {t.get_id() for t in (g.start, g.end, s.F(IV(0)))} | {t.get_id() for t in g.not_cuts}
        for n, k in ints:
            if L.val(L.pre, k).get_id() in fixed and k not in L.mods: continue
            for c in (0, 1):
                out.append((f'start+{n}+{c}', lambda S, k=k, c=c: g.start + L.val(S, k) + c))
        return out

    def labels(g, L):
        fixed = {t.get_id() for t in [g.start, g.end] + g.not_cuts}
        return [(n, k) for n, k in L.int_keys(False) if not n.endswith('#') and L.val(L.pre, k).get_id() not in fixed]

    def parts(g, L):
        c = g.cuts(L)
        return [(c[0], x) for x in c[1:]] + [(x, c[1]) for x in c[2:]]


def entropy(ck):
    """entropies of the cuts of one feature"""
    s = H(ck, nan=True)
    e = s.eng
    a, this = node(s)
    k = -s.sf(s.S, a)
    S0 = s.S.copy()
    g = Gain(s, k, S0, Real('points'))
    f, off = Int('f'), Int('offset')
    e.assume(AND(s.inf(f), off >= 0, off < 2 ** 40))
    g.start, g.end = s.ST(f), s.ST(f) + s.F(f)
    e.assume(s.ST(f + 1) == g.end)
    g.not_cuts = [f, s.F(f)]
    e.auto_frame = False
    cp = leaf_counters(s, s.S, k)
    out = array(e, 'output', FLT, None)
    o = ptr1(out)
    out = Ptr.to(LV(o.root, o.path, [off], o.ty, off + s.F(f) - 1))
    ok = ('output', ('[]',))
    fn = s.prog.func(s.nrec, 'compute_entropy')
    ck.under(fn)
    S0 = s.S.copy()
    val = lambda S, j: SEL(e.get(S, ok), j)
    ent = lambda v: g.ENT(g.start, g.start + v + 1, g.end)

    def cands(L):
        c = g.cands(L)
        mods = [y for y in L.int_keys(True) if not y[0].endswith('#')]
        if ok in L.mods:
            v = qv('v')
            for n, kk in mods:
                c.append((f'entropies below {n}', lambda S, kk=kk: FA(v, IMP(AND(v >= off, v < off + L.val(S, kk)), val(S, v) == g.ENT(g.start, g.start + v - off + 1, g.end)), val(S, v))))
            c.append(('output kept outside', lambda S: FA(v, IMP(OR(v < off, v >= off + s.F(f) - 1), val(S, v) == val(S0, v)), val(S, v))))
        # sums over the labels
        acc = [(nm, lambda S, kk=kk: e.get(S, kk)) for nm, kk in L.real_keys(True)]
        for fr in e.frames:
            for d in fr.order:
                root, ty = fr.locals[d]
                if ty.k == 'arr' and ty.to.k == 'float' and (root, ('[]',)) in L.mods:
                    acc += [(f'{root}[{x}]', lambda S, root=root, x=x: SEL(e.get(S, (root, ('[]',))), IV(x))) for x in (0, 1)]
        for nm, av in acc:
            for n, kk in mods:
                for (na, p), (nb, q) in g.parts(L):
                    if f'{n}+' in na or f'{n}+' in nb: continue
                    for sm in (g.TS, g.PS):
                        c.append((f'{nm} = {sm.name}({na},{nb},{n})', lambda S, av=av, kk=kk, p=p, q=q, sm=sm: av(S) == sm(p(S), q(S), L.val(S, kk))))
        return c
    e.inv_hooks.append(cands)
    e.invoke(fn, this, [f, g.start, cp, out], s.S)
    S = s.S
    v = qv('v')
    e.prove('every cut gets the average entropy of its two sides', FA(v, IMP(AND(v >= off, v < off + s.F(f) - 1), val(S, v) == g.ENT(g.start, g.start + v - off + 1, g.end)), val(S, v)), S)
    # lemma: the limits of a feature belong to it
    e.prove('and is reported under the number of the limit', FA(v, IMP(AND(v >= off, v < off + s.F(f) - 1), val(S, v) == g.E(g.start - f + v - off)), val(S, v)), S)
    e.prove('nothing else is written', FA(v, IMP(OR(v < off, v >= off + s.F(f) - 1), val(S, v) == val(S0, v)), val(S, v)), S)
    for key in (s.CTR, s.CNT, s.LIM, s.INF, s.LB, s.UB, s.SF, s.SV, s.CH): e.prove(f'unchanged {key[1]}', unchanged(e, S0, S, key), S)
    ck.cover(e, S)


def leaf_counters(s, S, k, root='counters'):
    """an array with the pointers to the counters of block k"""
    e = s.eng
    e.leaf_ty[(root, ('[]',))] = T('ptr', to=I32)
    cp = Ptr.to(LV(root, ('[]',), [IV(0)], T('ptr', to=I32), s.LC))
    for c in range(3): e.leaf_ty[(root, ('[]', f'@{c}'))] = I64
    e.assume(s.counters_of(S, cp, k))
    return cp


def gain(ck):
    """the gain of every candidate, from the entropies of the cuts"""
    public = 'public' in ck.label
    s = H(ck, nan=True)
    e = s.eng
    a, this = node(s)
    k = -s.sf(s.S, a)
    points = z3.ToReal(s.at(s.S, s.CNT, k)) if public else Real('points')
    g = Gain(s, k, s.S.copy(), points)
    g.start, g.end, g.not_cuts = IV(0), s.F(IV(0)), []
    e.assume(s.leaf(s.S, a))
    e.auto_frame = False
    out = array(e, 'output', FLT, s.NL)
    ok = ('output', ('[]',))
    val = lambda S, j: SEL(e.get(S, ok), j)
    S0 = s.S.copy()
    v = qv('v')
    three = [m for m in s.nrec.methods if m.name == 'compute_information_gain' and m.body and len(m.params) == 3]
    one = [m for m in s.nrec.methods if m.name == 'compute_information_gain' and m.body and len(m.params) == 1]
    ent = [m for m in s.nrec.methods if m.name == 'compute_entropy' and m.body]
    if not ent or not one: raise ExtractError('no information gain')

    def entropy_req(eng, this2, vals, st):
        f = vals[0]
        return [('of this leaf', this2.idx[0] == a), ('for a feature', s.inf(f)), ('the first bin of the feature', vals[1] == s.ST(f)), ('with the counters of this leaf', s.counters_of(st, vals[2], k))]

    def entropy_eff(eng, this2, vals, st):
        f, o = vals[0], ptr1(vals[3])
        arr, new = eng.get(st, o.key), eng.fresh('entropy', eng.get(st, o.key).sort())
        off = o.idx[-1]
        eng.facts.append(FA(v, SEL(new, v) == z3.If(AND(v >= off, v < off + s.F(f) - 1), g.E(v - off + s.ST(f) - f), SEL(arr, v)), SEL(new, v)))
        st.mem[o.key] = new
    for m in ent: e.contracts[m.id] = Contract(requires=entropy_req, effect=entropy_eff)

    def gain_req(eng, this2, vals, st):
        return [('of this leaf', this2.idx[0] == a), ('with the counters of this leaf', s.counters_of(st, vals[1], k)), ('with the number of points of this leaf', eng.convert(vals[0], None, FLT) == points)]

    def gain_eff(eng, this2, vals, st):
        o = ptr1(vals[2])
        arr, new = eng.get(st, o.key), eng.fresh('gain', eng.get(st, o.key).sort())
        off = o.idx[-1]
        eng.facts.append(FA(v, SEL(new, v) == z3.If(AND(v >= off, v < off + s.NL), g.H - g.E(v - off), SEL(arr, v)), SEL(new, v)))
        st.mem[o.key] = new
    if public:
        for m in three: e.contracts[m.id] = Contract(requires=gain_req, effect=gain_eff)

    def cands(L):
        c = g.cands(L)
        mods = [y for y in L.int_keys(True) if not y[0].endswith('#')]
        if ok in L.mods:
            for n, kk in mods:
                for d in (0, 1): c.append((f'entropies of the features below {n}+{d}', lambda S, kk=kk, d=d: FA(v, IMP(AND(v >= 0, v < s.ST(L.val(S, kk) + d) - L.val(S, kk) - d), val(S, v) == g.E(v)), val(S, v))))
                c.append((f'entropies from {n}', lambda S, kk=kk: FA(v, IMP(AND(v >= L.val(S, kk), v < s.NL), val(S, v) == g.E(v)), val(S, v))))
                c.append((f'gains below {n}', lambda S, kk=kk: FA(v, IMP(AND(v >= 0, v < L.val(S, kk)), val(S, v) == g.H - g.E(v)), val(S, v))))
            c.append(('output kept outside', lambda S: FA(v, IMP(OR(v < 0, v >= s.NL), val(S, v) == val(S0, v)), val(S, v))))
        for nm, kr in L.real_keys(True):
            for n, kk in mods: c.append((f'{nm} = LS({n})', lambda S, kr=kr, kk=kk: e.get(S, kr) == g.LS(L.val(S, kk))))
        return c
    e.inv_hooks.append(cands)
    if public: fn, args = one[0], [out]
    elif three: fn, args = three[0], [points, leaf_counters(s, s.S, k), out]
    else: raise ExtractError('no information gain over given counters')
    ck.under(fn)
    S0 = s.S.copy()
    e.invoke(fn, this, args, s.S)
    S = s.S
    e.prove('every candidate gets the entropy of the leaf minus that of its cut', FA(v, IMP(AND(v >= 0, v < s.NL), val(S, v) == g.H - g.E(v)), val(S, v)), S)
    e.prove('nothing else is written', FA(v, IMP(OR(v < 0, v >= s.NL), val(S, v) == val(S0, v)), val(S, v)), S)
    for key in (s.CTR, s.CNT, s.LIM, s.INF, s.LB, s.UB, s.SF, s.SV, s.CH): e.prove(f'unchanged {key[1]}', unchanged(e, S0, S, key), S)
    ck.cover(e, S)


def leaf_predict(ck):
    """the prediction of one leaf"""
    s = H(ck, nan=True)
    e = s.eng
    a, this = node(s)
    k = -s.sf(s.S, a)
    g = Gain(s, k, s.S.copy(), Real('points'), entropies=False)
    g.start, g.end, g.not_cuts = IV(0), s.F(IV(0)), []
    e.assume(s.leaf(s.S, a))
    e.auto_frame = False
    p, x = point(s)
    out = array(e, 'probabilities', FLT, s.LC)
    ok = ('probabilities', ('[]',))
    val = lambda S, j: SEL(e.get(S, ok), j)
    l, x_, y_, z_ = qv('l'), qv('x', R), qv('y', R), qv('z', R)
    e.assume(FA([x_, y_, z_], IMP(AND(z_ > 0), (x_ < y_) == (s.rm.M(x_, z_) < s.rm.M(y_, z_))), z3.MultiPattern(s.rm.M(x_, z_), s.rm.M(y_, z_))))
    cnt = lambda l: g.N(l, IV(0), s.F(IV(0)))
    tot = g.TS(IV(0), s.F(IV(0)), s.LC)
    frac = lambda l: s.fdiv(cnt(l), tot, None)
    fn = s.prog.func(s.nrec, 'predict')
    ck.under(fn)
    S0 = s.S.copy()

    def cands(L):
        c = g.cands(L)
        mods = [y for y in L.int_keys(True) if not y[0].endswith('#')]
        alls = [y for y in L.int_keys(None) if not y[0].endswith('#')]
        for nm, kr in L.real_keys(True):
            for n, kk in mods: c.append((f'{nm} = total({n})', lambda S, kr=kr, kk=kk: e.get(S, kr) == g.TS(IV(0), s.F(IV(0)), L.val(S, kk))))
        if ok in L.mods:
            for n, kk in mods:
                c.append((f'fractions below {n}', lambda S, kk=kk: FA(l, IMP(AND(l >= 0, l < L.val(S, kk)), val(S, l) == frac(l)), val(S, l))))
                for n2, k2 in mods:
                    if n2 == n: continue
                    c.append((f'{n2} is a label', lambda S, k2=k2: AND(L.val(S, k2) >= 0, L.val(S, k2) < s.LC)))
                    c.append((f'{n2} is zero or below {n}', lambda S, k2=k2, kk=kk: OR(L.val(S, k2) == 0, L.val(S, k2) < L.val(S, kk))))
                    c.append((f'{n2} is the first most frequent below {n}', lambda S, kk=kk, k2=k2: FA(l, IMP(AND(l >= 0, l < L.val(S, kk)), AND(g.CUM(l, s.F(IV(0))) <= g.CUM(L.val(S, k2), s.F(IV(0))), IMP(l < L.val(S, k2), g.CUM(l, s.F(IV(0))) < g.CUM(L.val(S, k2), s.F(IV(0)))))), g.CUM(l, s.F(IV(0))))))
        c.append(('output kept outside', lambda S: FA(l, IMP(OR(l < 0, l >= s.LC), val(S, l) == val(S0, l)), val(S, l))))
        return c
    e.inv_hooks.append(cands)
    r = e.invoke(fn, this, [p, out], s.S)
    S = s.S
    F0 = s.F(IV(0))
    e.prove('every label is reported with its share of the points of the leaf', FA(l, IMP(AND(l >= 0, l < s.LC, tot > 0), val(S, l) == s.div(cnt(l), tot)), val(S, l)), S)
    e.prove('the answer is a label', AND(r >= 0, r < s.LC), S)
    e.prove('no label is more frequent than the answer', FA(l, IMP(AND(l >= 0, l < s.LC), g.CUM(l, F0) <= g.CUM(r, F0)), g.CUM(l, F0)), S)
    e.prove('an earlier label is less frequent than the answer', FA(l, IMP(AND(l >= 0, l < r), g.CUM(l, F0) < g.CUM(r, F0)), g.CUM(l, F0)), S)
    e.prove('only the output is written', FA(l, IMP(OR(l < 0, l >= s.LC), val(S, l) == val(S0, l)), val(S, l)), S)
    for key in (s.CTR, s.CNT, s.LIM, s.INF, s.LB, s.UB, s.SF, s.SV, s.CH): e.prove(f'unchanged {key[1]}', unchanged(e, S0, S, key), S)
    frame(e, S0, S, s.this)
    ck.cover(e, S)


def leaf_of(s, S0, x):
    """the leaf a point belongs to: left when its feature is at most the split value, right otherwise"""
    e = s.eng
    LEAF, LEAF_ = z3.Function('leaf_of', I, I), z3.Function('leaf_of_', I, I)
    b = qv('a')
    go = lambda b: s.NB + z3.If(x(s.sf(S0, b)) <= s.at(S0, s.SV, b), s.at(S0, s.CH, b, IV(0)), s.at(S0, s.CH, b, IV(1)))
    e.assume(FA(b, IMP(s.valid(S0, b), LEAF(b) == z3.If(s.leaf(S0, b), b, LEAF_(go(b)))), LEAF(b)))
    e.assume(FA(b, LEAF(b) == LEAF_(b), LEAF(b)))
    return LEAF


def sort(ck):
    """from the root to the leaf of a point"""
    s = H(ck)
    e = s.eng
    for w in s.wf(s.S): e.assume(w[1])
    p, x = point(s)
    S0 = s.S.copy()
    LEAF = leaf_of(s, S0, x)
    fn = s.prog.func(s.rec, 'sort_in_leaf')
    ck.under(fn)

    def cands(L):
        c = []
        for n, kk in L.int_keys(True):
            v = lambda S, kk=kk: L.val(S, kk)
            c.append((f'{n} is a node', lambda S, v=v: s.valid(S, v(S))))
            c.append((f'{n} leads to the leaf', lambda S, v=v: LEAF(v(S)) == LEAF(s.NB)))
            for n2, k2 in L.int_keys(True):
                if n2 != n: c.append((f'{n} is past {n2}', lambda S, v=v, k2=k2: v(S) - s.NB >= L.val(S, k2)))
        return c
    e.inv_hooks.append(cands)
    r = e.invoke(fn, s.this, [p], s.S)
    S = s.S
    e.prove('the result is the leaf of the point', r == LEAF(s.NB), S)
    e.prove('the result is a leaf of the tree', AND(s.valid(S, r), s.leaf(S, r)), S)
    for key in (s.CTR, s.CNT, s.LIM, s.INF, s.LB, s.UB, s.SF, s.SV, s.CH): e.prove(f'unchanged {key[1]}', unchanged(e, S0, S, key), S)
    frame(e, S0, S, s.this)
    ck.cover(e, S)


def predict(ck):
    """the prediction of the tree"""
    s = H(ck)
    e = s.eng
    for w in s.wf(s.S): e.assume(w[1])
    p, x = point(s)
    S0 = s.S.copy()
    ROOTLEAF = Int('leaf_of_the_point')
    FRAC = z3.Function('fraction', I, I, R)
    l = qv('l')
    srt = s.prog.func(s.rec, 'sort_in_leaf')
    same_point = lambda vals: ptr1(vals[0]).idx[-1] == 0 if ptr1(vals[0]).root == 'features' else Ff
    s.contract_sort(srt, ROOTLEAF, same_point)
    lp = s.prog.func(s.nrec, 'predict')

    def eff(eng, this2, vals, st):
        o = ptr1(vals[1])
        arr, new = eng.get(st, o.key), eng.fresh('fractions', eng.get(st, o.key).sort())
        off = o.idx[-1]
        eng.facts.append(FA(l, SEL(new, l) == z3.If(AND(l >= off, l < off + s.LC), FRAC(this2.idx[0], l - off), SEL(arr, l)), SEL(new, l)))
        st.mem[o.key] = new
        b = eng.fresh('best', I)
        a2 = this2.idx[0]
        eng.facts.append(AND(b >= 0, b < s.LC, FA(l, IMP(AND(l >= 0, l < s.LC), AND(FRAC(a2, l) <= FRAC(a2, b), IMP(l < b, FRAC(a2, l) < FRAC(a2, b)))), FRAC(a2, l))))
        return b
    e.contracts[lp.id] = Contract(requires=lambda eng, this2, vals, st: [('of a leaf', s.leaf(st, this2.idx[0])), ('of the same point', same_point(vals))], effect=eff)
    fn = s.prog.func(s.rec, 'predict')
    ck.under(fn)
    want = 'scores' in ck.label
    ok = ('scores', ('[]',))
    out = array(e, 'scores', FLT, s.LC)
    S0 = s.S.copy()
    val = lambda S, j: SEL(e.get(S, ok), j)
    F = lambda l: FRAC(ROOTLEAF, l)

    def cands(L):
        c = []
        mods = [y for y in L.int_keys(True) if not y[0].endswith('#')]
        if ok in L.mods:
            for n, kk in mods: c.append((f'scores below {n}', lambda S, kk=kk: FA(l, IMP(AND(l >= 0, l < L.val(S, kk)), val(S, l) == F(l)), val(S, l))))
            c.append(('output kept outside', lambda S: FA(l, IMP(OR(l < 0, l >= s.LC), val(S, l) == val(S0, l)), val(S, l))))
        for n, kk in mods:
            for n2, k2 in mods:
                if n2 == n: continue
                c.append((f'{n2} is a label', lambda S, k2=k2: AND(L.val(S, k2) >= 0, L.val(S, k2) < s.LC)))
                for d in (0, 1):
                    c.append((f'{n2} is the first best below {n}+{d}', lambda S, kk=kk, k2=k2, d=d: AND(OR(L.val(S, k2) == 0, L.val(S, k2) < L.val(S, kk) + d), FA(l, IMP(AND(l >= 0, l < L.val(S, kk) + d), AND(F(l) <= F(L.val(S, k2)), IMP(l < L.val(S, k2), F(l) < F(L.val(S, k2))))), F(l)))))
        return c
    e.inv_hooks.append(cands)
    r = e.invoke(fn, s.this, [p, out if want else NULL()], s.S)
    S = s.S
    if want: e.prove('the scores are the shares of the labels at the leaf of the point', FA(l, IMP(AND(l >= 0, l < s.LC), val(S, l) == F(l)), val(S, l)), S)
    e.prove('only the scores are written', FA(l, IMP(OR(l < 0, l >= s.LC, z3.BoolVal(not want)), val(S, l) == val(S0, l)), val(S, l)), S)
    e.prove('the answer is a label', AND(r >= 0, r < s.LC), S)
    e.prove('the answer has the greatest share, and is the first to', FA(l, IMP(AND(l >= 0, l < s.LC), AND(F(l) <= F(r), IMP(l < r, F(l) < F(r)))), F(l)), S)
    for key in (s.CTR, s.CNT, s.LIM, s.INF, s.LB, s.UB, s.SF, s.SV, s.CH): e.prove(f'unchanged {key[1]}', unchanged(e, S0, S, key), S)
    frame(e, S0, S, s.this)
    ck.cover(e, S)


def layout(ck):
    """where the code puts the cells of a block: inside the block, and apart from each other"""
    s = H(ck, abstract=False)
    e = s.eng
    a, this = node(s)
    S = s.S
    sm = e.get(S, s.SUM)
    k = -s.sf(S, a)
    NL = sm - s.FC
    T = 4 + 16 * NL + 4 * s.mul(sm, s.LC)
    e.assume(AND(sm >= s.FC, sm < 2 ** 24, k >= 1, T <= s.MS, s.mul(k, T) <= s.MS - e.get(S, s.OF), e.get(S, s.OF) >= 0))
    x, y, z = Int('x_'), Int('y_'), Int('z_')
    k2 = Int('other_block')
    e.prove('lemma: products grow', AND(IMP(AND(x >= 1, y >= 0), x * y >= y), IMP(AND(x < z, y >= 0), z * y >= x * y + y)), State())
    e.prove('lemma: a block is not empty', T >= 0, S)
    e.assume(AND(T >= 0, s.mul(k, T) >= T, IMP(k2 > k, s.mul(k2, T) >= s.mul(k, T) + T), IMP(k2 < k, s.mul(k, T) >= s.mul(k2, T) + T)))
    e.byte_hook = lambda v, to, st, e_: ptr1(v).idx[-1] if ptr1(v).root == 'this' and ptr1(v).path == s.BU[1] else None
    f = s.prog.func(s.nrec, 'compute_total_size_counters')
    tot = [m for m in s.nrec.methods if m.name == 'compute_total_size_counters' and m.body]
    if not tot: raise ExtractError('no size of a block')
    for m in tot:
        ck.under(m)
        e.prove('the size of a block has room for every cell', e.invoke(m, this if not m.params else None, [sm] if m.params else [], S) == T, S)
    gc, gi = s.prog.func(s.nrec, 'get_counters'), s.prog.func(s.nrec, 'get_informations')
    ck.under(gc, gi)
    base = s.MS - s.mul(k, T)
    pos = []
    for nm in ('label', 'other'):
        l = Int(nm)
        e.assume(AND(l >= 0, l < s.LC))
        c = cell(e, nm + '_cell', I32)
        S.mem[(nm + '_cell', ())] = l
        pos.append(e.invoke(gc, this, [LVs(c.alts)], S))
    out = []
    for nm, ty in (('count', I32), ('limits', FLT), ('sums', FLT)):
        e.leaf_ty[(nm, ())] = T_('ptr', to=ty)
        S.mem[(nm, ())] = IV(0)
        out.append(LV(nm, (), [], T_('ptr', to=ty)))
    e.invoke(gi, this, [LVs([(Tt, l)]) for l in out], S)
    cnt, lim, inf = [e.get(S, (nm, ())) for nm in ('count', 'limits', 'sums')]
    l, o = Int('label'), Int('other')
    q, r, i, j = Int('q'), Int('r'), Int('i'), Int('j')
    e.assume(AND(q >= 0, q < sm, r >= 0, r < sm, i >= 0, i < NL, j >= 0, j < NL))
    cells = [('count', cnt, 4), ('limit', lim + 8 * i, 8), ('gain sum', inf + 8 * i, 8), ('counter', pos[0] + 4 * q, 4)]
    for nm, p, n in cells: e.prove(f'every {nm} lies in the block of the leaf, inside the buffer', AND(p >= base, p + n <= base + T, p >= e.get(S, s.OF), p + n <= s.MS), S)
    apart = lambda p, n, p2, n2: OR(p + n <= p2, p2 + n2 <= p)
    for x in range(4):
        for y in range(x):
            e.prove(f'a {cells[x][0]} and a {cells[y][0]} do not overlap', apart(*cells[x][1:], *cells[y][1:]), S)
    e.prove('two limits do not overlap', IMP(i != j, apart(lim + 8 * i, 8, lim + 8 * j, 8)), S)
    e.prove('two gain sums do not overlap', IMP(i != j, apart(inf + 8 * i, 8, inf + 8 * j, 8)), S)
    e.prove('two counters do not overlap', IMP(OR(l != o, q != r), apart(pos[0] + 4 * q, 4, pos[1] + 4 * r, 4)), S)
    e.prove('blocks do not overlap', IMP(AND(k2 >= 1, k2 != k), apart(base, T, s.MS - s.mul(k2, T), T)), S)
    ck.cover(e, S)


def reset(ck):
    """the counters of a new leaf are zero"""
    s = H(ck, abstract=False)
    e = s.eng
    a, this = node(s)
    S = s.S
    sm = e.get(S, s.SUM)
    k = -s.sf(S, a)
    T = Int('counters_size')
    e.assume(AND(sm >= s.FC, sm < 2 ** 24, k >= 1, T >= 1, T <= s.MS, s.mul(k, T) <= s.MS - e.get(S, s.OF), e.get(S, s.OF) >= 0))
    for m in s.nrec.methods:
        if m.name == 'compute_total_size_counters' and m.body: e.contracts[m.id] = Contract(effect=lambda eng, this, vals, st: T)
    f = s.prog.func(s.nrec, 'reset_counters')
    ck.under(f)
    S0 = S.copy()
    base = s.MS - s.mul(k, T)
    b = qv('b')
    byte = lambda S, b: SEL(e.get(S, s.BU), b)

    def cands(L):
        c = []
        if s.BU in L.mods:
            for n, kk in L.int_keys(True):
                for d in (0, 1): c.append((f'zero below {n}+{d}', lambda S, kk=kk, d=d: FA(b, byte(S, b) == z3.If(AND(b >= base, b < L.val(S, kk) + d), IV(0), byte(S0, b)), byte(S, b))))
                c.append((f'zero below base+{n}', lambda S, kk=kk: FA(b, byte(S, b) == z3.If(AND(b >= base, b < base + L.val(S, kk)), IV(0), byte(S0, b)), byte(S, b))))
                c.append((f'zero from {n}', lambda S, kk=kk: FA(b, byte(S, b) == z3.If(AND(b >= L.val(S, kk), b < base + T), IV(0), byte(S0, b)), byte(S, b))))
                c.append((f'zero after {n}', lambda S, kk=kk: FA(b, byte(S, b) == z3.If(AND(b > L.val(S, kk), b < base + T), IV(0), byte(S0, b)), byte(S, b))))
        for n, kk in L.int_keys(True):
            c += [(f'{n} in the block', lambda S, kk=kk: AND(L.val(S, kk) >= base, L.val(S, kk) <= base + T))]
        return c
    e.inv_hooks.append(cands)
    e.extra_terms += [('base', base), ('end', base + T)]
    e.invoke(f, this, [], S)
    e.prove('every byte of the block is zero, no other changes', FA(b, byte(S, b) == z3.If(AND(b >= base, b < base + T), IV(0), byte(S0, b)), byte(S, b)), S)
    for key in (s.SF, s.SV, s.CH, s.LB, s.UB, s.OF, s.PR): e.prove(f'unchanged {key[1]}', unchanged(e, S0, S, key), S)
    ck.cover(e, S)


def select(ck):
    """the candidate limits of a new leaf"""
    s = H(ck)
    e = s.eng
    a, this = node(s)
    S = s.S
    k = -s.sf(S, a)
    e.assume(s.leaf(S, a))
    f = s.prog.func(s.nrec, 'select_split_values')
    ck.under(f)
    S0 = S.copy()
    b, i = qv('b'), qv('i')
    lim = lambda S, b, i: s.at(S, s.LIM, b, i)
    step = lambda f: s.fdiv(s.at(S0, s.UB, a, f) - s.at(S0, s.LB, a, f), z3.ToReal(s.F(f)), None)
    WANT = z3.Function('even_limit', I, R)
    FLi = s.FL(i)
    e.assume(FA(i, IMP(AND(i >= 0, i < s.NL), WANT(i) == s.at(S0, s.LB, a, FLi) + s.rm(z3.ToReal(i - (s.ST(FLi) - FLi) + 1), step(FLi))), WANT(i)))

    def cands(L):
        c = []
        if s.LIM in L.mods:
            c.append(('other limits kept', lambda S: FA([b, i], IMP(OR(b != k, i < 0, i >= s.NL), lim(S, b, i) == lim(S0, b, i)), lim(S, b, i))))
            for n, kk in L.int_keys(None):
                v = lambda S, kk=kk: L.val(S, kk)
                c.append((f'limits set below {n}', lambda S, v=v: FA(i, IMP(AND(i >= 0, i < v(S)), lim(S, k, i) == WANT(i)), lim(S, k, i))))
        for n1, k1 in L.int_keys(True):
            for n2, k2 in L.int_keys(None):
                for n3, k3 in L.int_keys(None):
                    if n1 != n2 and n1 != n3 and n2 != n3:
                        for d in (0, 1): c.append((f'{n1} = ST({n2})-{n2}+{n3}-{d}', lambda S, k1=k1, k2=k2, k3=k3, d=d: L.val(S, k1) == s.ST(L.val(S, k2)) - L.val(S, k2) + L.val(S, k3) - d))
        return c
    e.inv_hooks.append(cands)
    e.invoke(f, this, [], S)
    e.prove('the limits of every feature divide its box evenly', FA(i, IMP(AND(i >= 0, i < s.NL), lim(S, k, i) == WANT(i)), lim(S, k, i)), S)
    e.prove('no other limit changes', FA([b, i], IMP(b != k, lim(S, b, i) == lim(S0, b, i)), lim(S, b, i)), S)
    for key in (s.CTR, s.CNT, s.INF, s.LB, s.UB, s.SF, s.SV, s.CH): e.prove(f'unchanged {key[1]}', unchanged(e, S0, S, key), S)
    frame(e, S0, S, s.this)
    ck.cover(e, S)


def zero_block(s, S, k):
    """goal: everything counted in block k is zero"""
    l, q, i = qv('l'), qv('q'), qv('i')
    return AND(s.at(S, s.CNT, k) == 0, FA([l, q], IMP(AND(l >= 0, l < s.LC, q >= 0, q < s.ST(s.FC)), s.at(S, s.CTR, k, l, q) == 0), s.at(S, s.CTR, k, l, q)),
               FA(i, IMP(AND(i >= 0, i < s.NL), s.at(S, s.INF, k, i) == 0), s.at(S, s.INF, k, i)))


def wf_again(s, e, S, what):
    for nm, g in s.wf(S): e.prove(f'{what}: {nm}', g, S)


def split_post(s, S0, S, a, feature, value, r):
    """(name, goal) of a split of leaf a that answered r"""
    e = s.eng
    n0, n1 = e.get(S0, GN), e.get(S, GN)
    b, f_, l, q, i = qv('a'), qv('f'), qv('l'), qv('q'), qv('i')
    k = -s.sf(S0, a)
    L, R_ = s.NB + s.at(S, s.CH, a, IV(0)), s.NB + s.at(S, s.CH, a, IV(1))
    old = lambda b: AND(b >= s.NB, b < s.NB + n0)
    kept = lambda guard: AND(FA(b, IMP(guard(b), AND(s.sf(S, b) == s.sf(S0, b), s.at(S, s.SV, b) == s.at(S0, s.SV, b))), s.sf(S, b), s.at(S, s.SV, b)),
                             FA([b, i], IMP(guard(b), s.at(S, s.CH, b, i) == s.at(S0, s.CH, b, i)), s.at(S, s.CH, b, i)))
    boxes = lambda guard: AND(*[FA([b, f_], IMP(guard(b), s.at(S, key, b, f_) == s.at(S0, key, b, f_)), s.at(S, key, b, f_)) for key in (s.LB, s.UB)])
    used = lambda kk: s.mul.M(kk, s.T) <= s.MS - e.get(S0, s.PR)
    free = lambda kk: z3.And(kk >= 1, used(kk))
    blocks = lambda guard: AND(FA(b, IMP(AND(free(b), guard(b)), s.at(S, s.CNT, b) == s.at(S0, s.CNT, b)), s.at(S, s.CNT, b)),
                               FA([b, i], IMP(AND(free(b), guard(b)), s.at(S, s.LIM, b, i) == s.at(S0, s.LIM, b, i)), s.at(S, s.LIM, b, i)),
                               FA([b, i], IMP(AND(free(b), guard(b)), s.at(S, s.INF, b, i) == s.at(S0, s.INF, b, i)), s.at(S, s.INF, b, i)),
                               FA([b, l, q], IMP(AND(free(b), guard(b)), s.at(S, s.CTR, b, l, q) == s.at(S0, s.CTR, b, l, q)), s.at(S, s.CTR, b, l, q)))
    ok = r == 0
    return [('a split answers zero or a failure', OR(r == 0, r == -1)),
            ('nodes are only added', n1 >= n0),
            ('without room every node stays as it is', IMP(NOT(ok), AND(kept(old), boxes(old)))),
            ('without room every counter and limit stays as it is', IMP(NOT(ok), blocks(lambda b: Tt))),
            ('the node splits on the feature and the value asked for', IMP(ok, AND(s.sf(S, a) == feature, s.at(S, s.SV, a) == value))),
            ('the children are two new leaves', IMP(ok, AND(L != R_, L >= s.NB + n0, R_ >= s.NB + n0, L < s.NB + n1, R_ < s.NB + n1, s.leaf(S, L), s.leaf(S, R_)))),
            ('the children do not share counters', IMP(ok, s.sf(S, L) != s.sf(S, R_))),
            ('the left child takes over the counters of the leaf', IMP(ok, OR(-s.sf(S, L) == k, -s.sf(S, R_) == k))),
            ('the left child starts from zero', IMP(ok, zero_block(s, S, -s.sf(S, L)))),
            ('the right child starts from zero', IMP(ok, zero_block(s, S, -s.sf(S, R_)))),
            ('the other nodes stay as they are', IMP(ok, AND(kept(lambda b: AND(old(b), b != a)), boxes(lambda b: AND(old(b), b != a))))),
            ('the other counters and limits stay as they are', IMP(ok, blocks(lambda b: b != k))),
            ('the box is cut at the value', IMP(ok, AND(FA(f_, IMP(s.inf(f_), AND(s.at(S, s.LB, L, f_) == s.at(S0, s.LB, a, f_), s.at(S, s.UB, R_, f_) == s.at(S0, s.UB, a, f_))), s.at(S, s.LB, L, f_), s.at(S, s.UB, R_, f_)),
                                                        FA(f_, IMP(s.inf(f_), AND(s.at(S, s.UB, L, f_) == z3.If(f_ == feature, value, s.at(S0, s.UB, a, f_)), s.at(S, s.LB, R_, f_) == z3.If(f_ == feature, value, s.at(S0, s.LB, a, f_)))),
                                                           s.at(S, s.UB, L, f_), s.at(S, s.LB, R_, f_)))))]


def copy_cands(s, L):
    """boxes filled feature by feature"""
    e = s.eng
    c = []
    f_, b = qv('f'), qv('a')
    who = []
    for fr in e.frames:
        if isinstance(fr.this, LV) and fr.this.root == 'NH': who.append((f'this{len(who)}', fr.this.idx[0]))
        for d in fr.order:
            root, ty = fr.locals[d]
            v = L.pre.mem.get((root, ()))
            if ty.k == 'ptr' and isinstance(v, z3.ExprRef) and (root, ()) not in L.mods: who.append((root, v))
            if ty.k == 'ref':
                try: l = ptr1(v)
                except Unsupported: continue
                if l.root == 'NH': who.append((root, l.idx[0]))
    for key in (s.LB, s.UB):
        if key not in L.mods: continue
        for w, x in who:
            far = e.inf() if key == s.LB else -e.inf()
            for n, kk in L.int_keys(True):
                c.append((f'{key[1][1]} of {w} is empty below {n}', lambda S, x=x, kk=kk, key=key, far=far: FA(f_, IMP(AND(f_ >= 0, f_ < L.val(S, kk)), s.at(S, key, x, f_) == far), s.at(S, key, x, f_))))
            at = lambda S, f, x=x, key=key: s.at(S, key, x, f)
            for n, kk in L.int_keys(True):
                v = lambda S, kk=kk: L.val(S, kk)
                for w2, y in who:
                    if w2 == w: continue
                    c.append((f'{key[1][1]} of {w} is that of {w2} below {n}', lambda S, at=at, y=y, v=v, key=key: FA(f_, IMP(AND(f_ >= 0, f_ < v(S)), at(S, f_) == s.at(L.pre, key, y, f_)), at(S, f_))))
            c.append((f'{key[1][1]} of others than {w} kept', lambda S, x=x, key=key: FA([b, f_], IMP(b != x, s.at(S, key, b, f_) == s.at(L.pre, key, b, f_)), s.at(S, key, b, f_))))
            c.append((f'{key[1][1]} of {w} kept outside', lambda S, at=at, x=x, key=key: FA(f_, IMP(OR(f_ < 0, f_ >= s.FC), at(S, f_) == s.at(L.pre, key, x, f_)), at(S, f_))))
    return c


def contract_select(s):
    e = s.eng

    def eff(eng, this, vals, st):
        k = -s.sf(st, this.idx[0])
        new = eng.fresh('limits', z3.ArraySort(I, R))
        st.mem[s.LIM] = z3.Store(eng.get(st, s.LIM), k, new)
    for m in s.nrec.methods:
        if m.name == 'select_split_values' and m.body: e.contracts[m.id] = Contract(requires=lambda eng, this, vals, st: [('the node is a leaf', s.leaf(st, this.idx[0]))], effect=eff)


def split(ck):
    """a leaf becomes a node with two leaves, or nothing happens"""
    s = H(ck)
    e = s.eng
    S = s.S
    for nm, g in s.wf(S): e.assume(g)
    a, this = node(s)
    e.assume(s.leaf(S, a))
    x, y, z = Int('x_'), Int('y_'), Int('z_')
    f, v = Int('feature'), Real('value')
    e.assume(s.inf(f))
    contract_select(s)
    e.inv_hooks.append(lambda L: copy_cands(s, L))
    fn = s.prog.func(s.nrec, 'split')
    ck.under(fn)
    S0 = S.copy()
    e.auto_frame = False
    r = e.invoke(fn, this, [f, v], S)
    for nm, g in split_post(s, S0, S, a, f, v, r): e.prove(nm, g, S)
    wf_again(s, e, S, 'the tree stays well formed')
    ck.cover(e, S)


def first(ck):
    """a new tree is one leaf that has counted nothing"""
    s = H(ck)
    e = s.eng
    S = s.S
    S.mem[GN] = IV(0)
    e.assume(s.SZ + s.T <= s.MS)
    p = array(e, 'sizes', I32, s.FC)
    x = e.get(S, ('sizes', ('[]',)))
    j = qv('j')
    e.assume(FA(j, IMP(AND(j >= 0, j < s.FC), SEL(x, j) == s.F(j)), SEL(x, j)))
    delta = Real('delta')

    def cands(L):
        c = copy_cands(s, L)
        if s.FS in L.mods: c += prefix(L, 'size copied', lambda S, j: SEL(e.get(S, s.FS), j) == s.F(j), pats=lambda S, j: [SEL(e.get(S, s.FS), j)])
        if s.SUM in L.mods:
            for n, kk in L.int_keys(True): c.append((f'sum below {n}', lambda S, kk=kk: e.get(S, s.SUM) == s.ST(L.val(S, kk))))
        return c
    e.inv_hooks.append(cands)
    e.auto_frame = False
    f = construct(e, s.rec, s.this, [delta, p], S)
    if f is not None: ck.under(f)
    e.prove('the bins of the features are those asked for', FA(j, IMP(AND(j >= 0, j < s.FC), SEL(e.get(S, s.FS), j) == s.F(j)), SEL(e.get(S, s.FS), j)), S)
    e.prove('their sum is right', e.get(S, s.SUM) == s.ST(s.FC), S)
    e.prove('the probability of error is the one asked for', e.get(S, s.DE) == delta, S)
    e.prove('the tree has one node, a leaf', AND(e.get(S, GN) == 1, s.leaf(S, s.NB)), S)
    e.prove('the root has counted nothing', zero_block(s, S, -s.sf(S, s.NB)), S)
    e.prove('the box of the root is empty', FA(j, IMP(s.inf(j), AND(s.at(S, s.LB, s.NB, j) == e.inf(), s.at(S, s.UB, s.NB, j) == -e.inf())), s.at(S, s.LB, s.NB, j), s.at(S, s.UB, s.NB, j)), S)
    wf_again(s, e, S, 'a new tree is well formed')
    ck.cover(e, S)


def tree_train(ck):
    """one training of the tree"""
    s = H(ck)
    e = s.eng
    S = s.S
    for nm, g in s.wf(S): e.assume(g)
    p, x = point(s)
    lab = Int('label')
    e.assume(AND(lab >= 0, lab < s.LC))
    TR = ('ghost_trained', ('[]',))
    e.leaf_ty[TR] = I64
    S.mem[TR] = z3.K(I, IV(0))
    SPL = ('ghost_split', ())
    e.leaf_ty[SPL] = I64
    S.mem[SPL] = IV(2)
    ROOTLEAF = Int('leaf_of_the_point')
    same_point = lambda vals: ptr1(vals[0]).idx[-1] == 0 if ptr1(vals[0]).root == 'features' else Ff
    s.contract_sort(s.prog.func(s.rec, 'sort_in_leaf'), ROOTLEAF, same_point)
    contract_select(s)
    VAL = z3.Function('suggested_value', I, I, R)     # of the n-th training of a node
    FEAT = z3.Function('suggested_feature', I, I, I)

    def train_eff(eng, this, vals, st):
        a = this.idx[0]
        k = -s.sf(st, a)
        n = SEL(eng.get(st, TR), a)
        for key in (s.CNT, s.INF, s.CTR): st.mem[key] = z3.Store(eng.get(st, key), k, eng.fresh('trained', eng.get(st, key).sort().range()))
        for key in (s.LB, s.UB): st.mem[key] = z3.Store(eng.get(st, key), a, eng.fresh('box', eng.get(st, key).sort().range()))
        r = FEAT(a, n)
        eng.facts.append(AND(r >= -1, r < s.FC))
        old = eng.read(vals[2].alts, st)
        eng.write(vals[2].alts, z3.If(r >= 0, VAL(a, n), old), st)
        st.mem[TR] = z3.Store(eng.get(st, TR), a, n + 1)
        return r
    tr, sp = s.prog.func(s.nrec, 'train'), s.prog.func(s.nrec, 'split')
    e.contracts[tr.id] = Contract(requires=lambda eng, this, vals, st: [('the node exists', s.valid(st, this.idx[0])), ('the node is a leaf', s.leaf(st, this.idx[0])), ('the same point', same_point(vals)), ('the same label', vals[1] == lab)], effect=train_eff)

    def split_eff(eng, this, vals, st):
        S0 = st.copy()
        a = this.idx[0]
        for key in (GN, s.OF, s.PR, s.SF, s.SV, s.CH, s.LB, s.UB, s.CNT, s.LIM, s.INF, s.CTR): eng.havoc(st, key)
        r = eng.fresh('split_result', I)
        for nm, g in split_post(s, S0, st, a, vals[0], vals[1], r) + s.wf(st): eng.facts.append(g)
        st.mem[SPL] = r
        return r
    e.contracts[sp.id] = Contract(requires=lambda eng, this, vals, st: [('the node is the leaf of the point', this.idx[0] == ROOTLEAF), ('the node is a leaf', s.leaf(st, this.idx[0])), ('a feature is split on', s.inf(vals[0])),
                                  ('the split is on what the leaf suggests', AND(FEAT(ROOTLEAF, 0) >= 0, vals[0] == FEAT(ROOTLEAF, 0), vals[1] == VAL(ROOTLEAF, 0)))] + s.wf(st), effect=split_eff)
    fn = s.prog.func(s.rec, 'train')
    ck.under(fn)
    S0 = S.copy()
    r = e.invoke(fn, s.this, [p, lab], S)
    tr = e.get(S, TR)
    f, v, sr = FEAT(ROOTLEAF, 0), VAL(ROOTLEAF, 0), e.get(S, SPL)
    b, i = qv('a'), qv('i')
    if not isinstance(r, z3.BoolRef): r = r != 0
    e.prove('a split is tried exactly when the leaf suggests one', (sr == 2) == (f < 0), S)
    e.prove('the call fails exactly when a split was wanted and did not happen', NOT(r) == AND(f >= 0, sr != 0), S)
    side = s.NB + z3.If(x(f) <= v, s.at(S, s.CH, ROOTLEAF, IV(0)), s.at(S, s.CH, ROOTLEAF, IV(1)))
    e.prove('the point trains its leaf, and after a split the child on its side, once', FA(b, SEL(tr, b) == z3.If(OR(b == ROOTLEAF, AND(sr == 0, b == side)), IV(1), IV(0)), SEL(tr, b)), S)
    old = lambda b: AND(b >= s.NB, b < s.NB + e.get(S0, GN))
    kept = AND(FA(b, IMP(old(b), s.sf(S, b) == s.sf(S0, b)), s.sf(S, b)), FA(b, IMP(old(b), s.at(S, s.SV, b) == s.at(S0, s.SV, b)), s.at(S, s.SV, b)), FA([b, i], IMP(old(b), s.at(S, s.CH, b, i) == s.at(S0, s.CH, b, i)), s.at(S, s.CH, b, i)))
    e.prove('a call that fails leaves the tree with the structure it had', IMP(NOT(r), kept), S)
    e.prove('a call without a split leaves the tree with the structure it had', IMP(f < 0, kept), S)
    wf_again(s, e, S, 'the tree stays well formed')
    ck.cover(e, S)
    ck.cover(e, S, 'a full buffer is reachable', NOT(r))


A = ['at least two candidate limits per leaf; limits of a feature are sorted', 'node sizes and alignment: x86 tolerates the unaligned doubles of the counter blocks']
base = dict(headers=[HDR], native='hoeffding.cpp', native_flags=['-fno-sanitize=alignment'], programs=[PROG], assumptions=A)
SPECS = {
    'C24': dict(base, tasks=[('leaf predict', leaf_predict), ('sort', sort), ('predict', predict), ('predict scores', predict)]),
    'C25': dict(base, native_flags=['-fno-sanitize=alignment', '-fno-access-control'], tasks=[('train count', train), ('new tree', first)]),
    'C26': dict(base, tasks=[('entropy', entropy), ('gain', gain), ('gain public', gain)]),
    'C27': dict(base, tasks=[('train decision', train), ('layout', layout), ('reset', reset), ('select', select), ('split', split), ('new tree', first), ('tree train', tree_train)]),
}
