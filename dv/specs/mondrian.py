"""Contracts of src/mondrian.hpp (C28, C29, C30)."""
from lib import *
import specs.utils as utils

HDR = 'mondrian.hpp'
PRE = 'struct Fn{ static double rand_uniform(); static double log(double); static double exp(double); };'
INST = 'template class MondrianForest<double, Fn, 3, 4, 5, 100000>; inline void use_(){ MondrianForest<double, Fn, 3, 4, 5, 100000> a(1.0, 0.5, 1.0); double x[4]; a.train(x, 1); a.predict(x); }'
PROG = dict(header=HDR, inst=INST, pre=PRE)
R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
OWN, CUR, TOT, LEAF, RANK, DONE, USED = ('ghost_own', ('[]',)), ('ghost_cur', ()), ('ghost_total', ()), ('ghost_leaf', ()), ('ghost_rank', ('[]',)), ('ghost_done', ()), ('ghost_used', ())


class M:
    """The pool of nodes with ghost state: own(i) is the tree node i was taken for (-1: free), total the number of points with label l0 counted in
    the leaves of tree t0 (both arbitrary), leaf the node that counted last for t0, rank a number growing from parent to child."""
    NUL = -1       # no node
    free_frame = []
    def __init__(s, ck, geo):
        s.ck, s.geo, s.opaque = ck, geo, False
        s.prog = ck.prog(HDR, INST, pre=PRE)
        s.T, s.F, s.L, s.MS = Int('tree_count'), Int('feature_count'), Int('label_count'), Int('max_size')
        s.eng = e = ck.engine(s.prog, dict(tree_count=s.T, feature_count=s.F, label_count=s.L, max_size=s.MS))
        s.N = Int('MAX_NODE')
        e.assume(AND(s.T >= 1, s.F >= 1, s.L >= 1, s.F < 2 ** 24, s.L < 2 ** 24, s.N >= s.T, s.N < 2 ** 30, s.MS < 2 ** 31))
        e.static_vals['MAX_NODE'] = s.N
        e.rmul = s.product
        s.PROD = z3.Function('PROD', R, R, R)
        s.DIV = z3.Function('DIV', R, R, R)
        e.fdiv = lambda a, b, st: s.DIV(a, b)
        s.rec, s.nd = s.prog.rec('MondrianForest'), s.prog.rec('Node')
        s.this = obj(e, s.rec)
        fl, it = (lambda t: t.k == 'float'), (lambda t: t.k == 'int')
        ar = lambda k: (lambda t: t.k == 'arr' and t.to.k == k)
        ns = fld(s.prog, s.rec, 'nodes', ar('rec'), e)
        n = lambda nm, p, nth=0, *x: ('this', (ns, '[]', fld(s.prog, s.nd, nm, p, e, nth)) + x)
        s.SD, s.CL, s.CR, s.PA = n('split_dimension', it), n('child_left', it, 1), n('child_right', it, 2), n('parent', it, 3)
        s.SV, s.TAU = n('split_value', fl), n('tau', fl, 1)
        s.LO, s.UP, s.CT = n('bound_lower', ar('float'), 0, '[]'), n('bound_upper', ar('float'), 1, '[]'), n('counters', ar('int'), 0, '[]')
        s.nodekeys = [s.SD, s.CL, s.CR, s.PA, s.SV, s.TAU, s.LO, s.UP, s.CT]
        h = lambda nm, p, nth=0, *x: ('this', (fld(s.prog, s.rec, nm, p, e, nth),) + x)
        s.RO, s.LT, s.BM, s.DF = h('roots', ar('int'), 0, '[]'), h('lifetime', fl), h('base_measure', fl, 1), h('discount_factor', fl, 2)
        for k, t in ((OWN, I32), (CUR, I32), (TOT, I64), (LEAF, I32), (DONE, I32), (USED, I32), (RANK, FLT)): e.leaf_ty[k] = t
        s.S = State()
        e.houdini_rl = 300_000
        s.lt = e.get(s.S, s.LT)
        s.draw = Draws(e, 0, 1, strict=True)
        s.draw.start(s.S)
        e.models['rand_uniform'] = s.draw
        real = lambda eng, a, st: eng.convert(eng.ev(a[0], st), None, FLT)
        s.LOG, s.EXP = z3.Function('log', R, R), z3.Function('exp', R, R)
        e.models['log'] = lambda eng, a, st, n: s.LOG(real(eng, a, st))
        e.models['exp'] = lambda eng, a, st, n: s.EXP(real(eng, a, st))
        s.t0, s.l0 = Int('t0'), Int('l0')
        e.assume(AND(s.t0 >= 0, s.t0 < s.T, s.l0 >= 0, s.l0 < s.L))
        e.assume(s.lt >= 0)

    def nonzero(s):
        """NZ(a, n): one of the first n cells is not zero"""
        e = s.eng
        A = z3.ArraySort(I, R)
        s.NZ, W = z3.Function('NZ', A, I, B), z3.Function('NZ_at', A, I, I)
        a, n, i, v = z3.Const('a?', A), z3.Const('n?', I), z3.Const('i?', I), z3.Const('v?', R)
        ac, nc, ic, vc = z3.Const('a_', A), Int('n_'), Int('i_'), Real('v_')
        unf = lambda a, n: s.NZ(a, n + 1) == OR(s.NZ(a, n), z3.Select(a, n) != 0)
        st = z3.Store(ac, ic, vc)
        S = State()
        e.prove('lemma: a later cell does not matter', AND(IMP(AND(NOT(s.NZ(st, 0)), NOT(s.NZ(ac, 0))), s.NZ(st, 0) == s.NZ(ac, 0)),
                                                          IMP(AND(nc >= 0, ic >= nc + 1, unf(st, nc), unf(ac, nc), s.NZ(st, nc) == s.NZ(ac, nc)), s.NZ(st, nc + 1) == s.NZ(ac, nc + 1))), S)
        k = Int('k_')
        wit = lambda a, n, w: AND(w >= 0, w < n, z3.Select(a, w) != 0)
        e.prove('lemma: one of the cells is not zero', IMP(AND(nc >= 0, unf(ac, nc), IMP(s.NZ(ac, nc), wit(ac, nc, k)), s.NZ(ac, nc + 1)), OR(wit(ac, nc + 1, k), wit(ac, nc + 1, nc))), S)
        e.assume(FA(a, NOT(s.NZ(a, 0)), s.NZ(a, 0)))
        e.assume(FA([a, n], IMP(s.NZ(a, n), wit(a, n, W(a, n))), s.NZ(a, n)))
        e.assume(FA([a, n, v], IMP(n >= 0, s.NZ(z3.Store(a, n, v), n + 1) == OR(s.NZ(a, n), v != 0)), s.NZ(z3.Store(a, n, v), n + 1)))

    def product(s, a, b):
        for x in (a, b):
            if z3.is_rational_value(z3.simplify(x)): return a * b
        t = s.PROD(a, b)
        for x, y in ((a, b), (b, a)):
            s.eng.facts.append(IMP(AND(x >= 0, x < 1), AND(IMP(y >= 0, AND(t >= 0, t <= y)), IMP(y > 0, t < y))))
        return t

    def at(s, S, k, *ix): return SEL(s.eng.get(S, k), *ix)
    def own(s, S, i): return z3.Select(s.eng.get(S, OWN), i)
    def isleaf(s, S, i): return s.at(S, s.SD, i) == -1
    def slot(s, i): return AND(i >= 0, i < s.N)

    def linked(s, S, i):
        """node i is part of the tree it was taken for"""
        p = s.at(S, s.PA, i)
        return AND(s.own(S, i) >= 0, OR(p != s.NUL, s.at(S, s.RO, s.own(S, i)) == i))

    def ghosts(s):
        """ghost code run at the writes of the program"""
        e = s.eng

        def take(st, key, idx, old, new):      # a free node (tau < 0) is taken for the current tree
            i = idx[0]
            o = s.own(st, i)
            v = z3.If(new >= 0, z3.If(o == -1, e.get(st, CUR), o), IV(-1))
            st.mem[USED] = e.get(st, USED) + z3.If(AND(o == -1, new >= 0), IV(1), z3.If(AND(o != -1, new < 0), IV(-1), IV(0)))
            st.mem[OWN] = z3.Store(e.get(st, OWN), i, v)

        def counted(st, key, idx, old, new):
            st.mem[LEAF] = z3.If(AND(new > old, e.get(st, CUR) == s.t0), idx[0], e.get(st, LEAF))
        term = lambda st, key, idx: z3.If(AND(s.slot(idx[0]), s.own(st, idx[0]) == s.t0, s.isleaf(st, idx[0])), s.at(st, s.CT, idx[0], s.l0), IV(0))
        if s.geo: e.ghosts.append(dict(watch={s.SD, s.SV}, act=s.split_lemma))
        e.ghosts += [dict(watch={s.TAU}, act=take), dict(watch={s.CT}, act=counted), dict(watch={s.TAU, s.SD, s.CT}, key=TOT, term=term)]

    def split_lemma(s, st, key, idx, old, new):
        """a split written for the node at hand lies between its box and the point (an intermediate fact, proved or not used)"""
        if not hasattr(s, 'node') or len(idx) != 1: return
        i, n = idx[0], s.node
        d, v = s.at(st, s.SD, i), s.at(st, s.SV, i)
        x, lo, up = z3.Select(s.X, d), s.at(s.S0, s.LO, n, d), s.at(s.S0, s.UP, n, d)
        if s.eng.soft(AND(d >= 0, d < s.F, OR(x < lo, up < x)), st):
            s.eng.soft(OR(AND(x <= v, v < lo), AND(up <= v, v < x)), st)

    def inv(s, S, point=None):
        """structure of the forest; with geo also order of times and boxes"""
        e = s.eng
        if s.opaque:     # the same predicate by its name: nothing at this level looks into it
            ks = [e.get(S, k) for k in s.nodekeys + [s.RO, OWN, RANK]]
            return [('the forest is well formed', z3.Function('INV', *[k.sort() for k in ks], B)(*ks))]
        i, t, f, l = qv('i'), qv('t'), qv('f'), qv('l')
        own, at = (lambda x: s.own(S, x)), (lambda k, *x: s.at(S, k, *x))
        cl, cr, pa = at(s.CL, i), at(s.CR, i), at(s.PA, i)
        lk = s.linked(S, i)
        inner = AND(s.slot(i), lk, NOT(s.isleaf(S, i)))
        child = lambda c: AND(s.slot(c), own(c) == own(i), at(s.PA, c) == i)
        out = [('free nodes are not in use', FA(i, IMP(s.slot(i), AND(own(i) >= -1, own(i) < s.T, (own(i) == -1) == (at(s.TAU, i) < 0))), own(i), at(s.TAU, i))),
               ('free nodes are blank', FA(i, IMP(AND(s.slot(i), own(i) == -1), AND(at(s.SD, i) == -1, at(s.PA, i) == -1)), own(i))),
               ('free nodes have counted nothing', FA([i, l], IMP(AND(s.slot(i), own(i) == -1, l >= 0, l < s.L), at(s.CT, i, l) == 0), at(s.CT, i, l))),
               ('every leaf in use is part of its tree', FA(i, IMP(AND(s.slot(i), own(i) >= 0, s.isleaf(S, i)), lk), own(i))),
               ('an internal node has two children', FA(i, IMP(inner, AND(at(s.SD, i) >= 0, at(s.SD, i) < s.F, cl != cr)), own(i))),
               ('left children are in the tree', FA(i, IMP(inner, child(cl)), own(i))),
               ('right children are in the tree', FA(i, IMP(inner, child(cr)), own(i))),
               ('no node is above itself', FA(i, IMP(inner, AND(at(RANK, i) < at(RANK, cl), at(RANK, i) < at(RANK, cr))), own(i))),
               ('a node that is not a root is a child of its parent', FA(i, IMP(AND(s.slot(i), own(i) >= 0, pa != -1), AND(s.slot(pa), own(pa) == own(i), s.linked(S, pa), NOT(s.isleaf(S, pa)), OR(at(s.CL, pa) == i, at(s.CR, pa) == i))), own(i))),
               ('a root is a node of its tree', FA(t, IMP(AND(t >= 0, t < s.T, at(s.RO, t) != -1), AND(s.slot(at(s.RO, t)), own(at(s.RO, t)) == t, at(s.PA, at(s.RO, t)) == -1)), at(s.RO, t))),
               ('a tree with a node has a root', FA(i, IMP(AND(s.slot(i), own(i) >= 0), at(s.RO, own(i)) != -1), own(i))),
               ('counts are not negative', FA([i, l], IMP(AND(s.slot(i), l >= 0, l < s.L), at(s.CT, i, l) >= 0), at(s.CT, i, l)))]
        if s.geo: out += s.geometry(S)
        return out

    def geometry(s, S):
        i, f = qv('i'), qv('f')
        at = lambda k, *x: s.at(S, k, *x)
        cl, cr = at(s.CL, i), at(s.CR, i)
        inner = AND(s.slot(i), s.linked(S, i), NOT(s.isleaf(S, i)))
        rf = AND(f >= 0, f < s.F)
        sd = at(s.SD, i)
        inside = lambda c: AND(at(s.LO, i, f) <= at(s.LO, c, f), at(s.UP, i, f) >= at(s.UP, c, f))
        return [('times grow from parent to child', FA(i, IMP(inner, AND(at(s.TAU, i) <= at(s.TAU, cl), at(s.TAU, i) <= at(s.TAU, cr))), at(s.TAU, i))),
                ('times stay below the lifetime', FA(i, IMP(AND(s.slot(i), s.own(S, i) >= 0), at(s.TAU, i) <= s.lt), at(s.TAU, i))),
                ('boxes are not empty', FA([i, f], IMP(AND(s.slot(i), s.linked(S, i), rf), at(s.LO, i, f) <= at(s.UP, i, f)), at(s.LO, i, f), at(s.UP, i, f))),
                ('the box of a node contains that of its left child', FA([i, f], IMP(AND(inner, rf), inside(cl)), at(s.LO, i, f), at(s.UP, i, f))),
                ('the box of a node contains that of its right child', FA([i, f], IMP(AND(inner, rf), inside(cr)), at(s.LO, i, f), at(s.UP, i, f))),
                ('the split is not below the box of the left child', FA(i, IMP(inner, at(s.UP, cl, sd) <= at(s.SV, i)), at(s.SV, i))),
                ('the split is below the box of the right child', FA(i, IMP(inner, at(s.SV, i) < at(s.LO, cr, sd)), at(s.SV, i)))]

    def inbox(s, S, i):
        f = qv('f')
        return FA(f, IMP(AND(f >= 0, f < s.F), AND(s.at(S, s.LO, i, f) <= z3.Select(s.X, f), z3.Select(s.X, f) <= s.at(S, s.UP, i, f))), s.at(S, s.LO, i, f), s.at(S, s.UP, i, f), z3.Select(s.X, f))

    def start(s, inv=True):
        e = s.eng
        if inv:
            for _, g in s.inv(s.S): e.assume(g)
        i, l = qv('i'), qv('l')
        c = s.at(s.S, s.CT, i, l)
        e.assume(FA([i, l], c < 2 ** 31 - 2, c))
        s.ghosts()

    def point(s):
        e = s.eng
        s.xk = ('features', ('[]',))
        s.p = array(e, 'features', FLT, s.F)
        s.X = e.get(s.S, s.xk)
        s.label = Int('label')
        e.assume(AND(s.label >= 0, s.label < s.L))

    # ---- growth of a tree by one point
    def grown(s, S0, S1, tree):
        """what one training of a tree does"""
        e = s.eng
        i, l, f, t = qv('i'), qv('l'), qv('f'), qv('t')
        at0, at1 = (lambda k, *x: s.at(S0, k, *x)), (lambda k, *x: s.at(S1, k, *x))
        k = e.get(S1, LEAF)
        mine = tree == s.t0
        out = [('the points of the label in the leaves of the tree', e.get(S1, TOT) == e.get(S0, TOT) + z3.If(AND(mine, s.label == s.l0), IV(1), IV(0))),
               ('a leaf of the tree counts the point', IMP(mine, AND(s.slot(k), s.own(S1, k) == s.t0, s.linked(S1, k), s.isleaf(S1, k), at1(s.CT, k, s.label) == s.base(S0, k, s.label) + 1))),
               ('no other leaf counts it', FA([i, l], IMP(AND(s.slot(i), s.own(S1, i) == s.t0, s.isleaf(S1, i), l >= 0, l < s.L, NOT(AND(mine, i == k, l == s.label))), at1(s.CT, i, l) == s.base(S0, i, l)), at1(s.CT, i, l))),
               ('other trees are left alone: witness', IMP(NOT(mine), k == e.get(S0, LEAF))),
               ('nodes stay in their trees', FA(i, IMP(AND(s.slot(i), s.own(S0, i) >= 0), s.own(S1, i) == s.own(S0, i)), s.own(S1, i))),
               s.kept_leaf(S0, S1),
               ('nodes stay linked', FA(i, IMP(AND(s.slot(i), s.linked(S0, i)), s.linked(S1, i)), s.own(S1, i))),
               ('new nodes are of this tree', FA(i, IMP(AND(s.slot(i), s.own(S0, i) == -1), OR(s.own(S1, i) == -1, s.own(S1, i) == tree)), s.own(S1, i))),
               ('the roots of other trees stay', FA(t, IMP(AND(t >= 0, t < s.T, t != tree), at1(s.RO, t) == at0(s.RO, t)), at1(s.RO, t))),
               ('the tree has a root', at1(s.RO, tree) != s.NUL)]
        if s.geo:
            out += [('the box of the leaf contains the point', IMP(mine, s.inbox(S1, k))),
                    ('boxes only grow', FA([i, f], IMP(AND(s.slot(i), s.linked(S0, i), f >= 0, f < s.F), AND(at1(s.LO, i, f) <= at0(s.LO, i, f), at1(s.UP, i, f) >= at0(s.UP, i, f))), at1(s.LO, i, f), at1(s.UP, i, f))),
                    ('splits stay', FA(i, IMP(AND(s.slot(i), s.own(S0, i) >= 0, NOT(s.isleaf(S0, i))), at1(s.SD, i) == at0(s.SD, i)), at1(s.SD, i))),
                    ('split values stay', FA(i, IMP(AND(s.slot(i), s.own(S0, i) >= 0, NOT(s.isleaf(S0, i))), at1(s.SV, i) == at0(s.SV, i)), at1(s.SV, i))),
                    ('split times stay', FA(i, IMP(AND(s.slot(i), s.own(S0, i) >= 0, NOT(s.isleaf(S0, i))), at1(s.TAU, i) == at0(s.TAU, i)), at1(s.TAU, i)))]
        return out

    def kept_leaf(s, S0, S1):
        i = qv('i')
        return ('leaves stay leaves', FA(i, IMP(AND(s.slot(i), s.own(S0, i) >= 0), (s.at(S1, s.SD, i) == -1) == (s.at(S0, s.SD, i) == -1)), s.at(S1, s.SD, i)))

    def base(s, S, i, l):
        """what node i had counted for tree t0"""
        return z3.If(s.own(S, i) == s.t0, s.at(S, s.CT, i, l), IV(0))

    def allkeys(s): return s.nodekeys + [s.RO, OWN, TOT, LEAF, RANK, DONE, USED, s.draw.key]

    def at_node(s, S, i, tree):
        """the point has reached node i of the tree"""
        p = s.at(S, s.PA, i)
        out = [('a node of the tree', AND(s.slot(i), s.own(S, i) == tree, s.linked(S, i), tree >= 0, tree < s.T))]
        if s.geo:
            x = z3.Select(s.X, s.at(S, s.SD, p))
            out += [('the box of the parent contains the point', IMP(p != s.NUL, s.inbox(S, p))),
                    ('on the side of the split of the point', IMP(p != s.NUL, z3.If(s.at(S, s.CL, p) == i, x <= s.at(S, s.SV, p), x > s.at(S, s.SV, p))))]
        return out

    def same_point(s, vals):
        return AND(*[s.eng.read(v.alts, s.S) == z3.Select(s.X, 0) if False else Tt for v in vals])

    def args(s, f, vals):
        """the arguments of a recursive call by kind: pointer to the features, integers in order"""
        p = [v for v in vals if isinstance(v, Ptr)]
        n = [v for v in vals if isinstance(v, z3.ExprRef)]
        if len(p) != 1 or len(p[0].alts) != 1 or p[0].alts[0][1].root != 'features': raise Unsupported('another point')
        off = p[0].alts[0][1].idx[-1]
        return z3.simplify(off), n

    def contract_extend(s):
        f = s.prog.func(s.rec, 'extend_block')
        if len(f.params) != 4: raise ExtractError('extend_block: other parameters')

        def req(eng, this, vals, st):
            off, (i, t, l) = s.args(f, vals)
            return [('the same point', AND(off == 0, l == s.label, t == eng.get(st, CUR)))] + s.at_node(st, i, t) + s.inv(st)

        def ens(eng, this, vals, pre, st, ret):
            _, (i, t, l) = s.args(f, vals)
            return [('ranked', eng.get(st, DONE) == 1)] + s.inv(st) + s.grown(pre, st, t)
        s.eng.contracts[f.id] = Contract(requires=req, modifies=lambda *a: s.allkeys(), ensures=ens)
        return f

    def contract_available(s):
        try: f = s.prog.func(s.rec, 'available_node', 0)
        except ExtractError: return None
        s.eng.contracts[f.id] = Contract(ensures=lambda eng, this, vals, pre, st, r: s.available_post(st, r) + [s.all_taken(st, r)])
        return f

    def available_post(s, S, r):
        i = qv('i')
        return [('a free node or none', AND(r >= -1, r < s.N, IMP(r >= 0, s.at(S, s.TAU, r) < 0))),
                ('none only if no node is free', IMP(r < 0, FA(i, IMP(s.slot(i), s.at(S, s.TAU, i) >= 0), s.at(S, s.TAU, i))))]

    def pigeonhole(s):
        """lemma (induction on the number of nodes): if every node is taken, the number of nodes taken is the number of nodes"""
        e = s.eng
        C = z3.Function('taken', z3.ArraySort(I, I), I, I)
        a, n, i = z3.Const('a_', z3.ArraySort(I, I)), Int('n_'), qv('i')
        unf = C(a, n + 1) == C(a, n) + z3.If(z3.Select(a, n) != -1, IV(1), IV(0))
        full = lambda n: (lambda i: FA(i, IMP(AND(i >= 0, i < n), z3.Select(a, i) != -1)))(qv('i'))
        e.prove('lemma: as many nodes taken as there are', AND(IMP(C(a, 0) == 0, C(a, 0) == 0), IMP(AND(n >= 0, unf, IMP(full(n), C(a, n) == n), full(n + 1)), C(a, n + 1) == n + 1)), State())

    def all_taken(s, S, r):
        """the lemma above at a state without a free node (used is by definition taken(own, N))"""
        return ('as many nodes taken as there are', IMP(r < 0, s.eng.get(S, USED) == s.N))

    def order(s, f, tree):
        """arguments of a training function: the point, its label, then the tree"""
        out, ints = [], [s.label] + ([tree] if tree is not None else [])
        for p in f.params:
            if s.prog.ty(p, s.eng).k == 'ptr': out.append(s.p)
            else:
                if not ints: raise ExtractError(f.name + ': other parameters')
                out.append(ints.pop(0))
        return out

    def tree_pre(s, S, t):
        e = s.eng
        return [('the tree has a root or a node is left', OR(s.at(S, s.RO, t) != -1, e.get(S, USED) < s.N))]

    def tree_post(s, S0, S1, t, r):
        e = s.eng
        return s.inv(S1) + s.grown(S0, S1, t) + [('training the tree succeeds', r), ('one node for a root', IMP(s.at(S0, s.RO, t) == -1, e.get(S1, USED) == e.get(S0, USED) + 1))]

    def contract_tree(s):
        f = s.prog.func(s.rec, 'train_tree')
        if len(f.params) != 3: raise ExtractError('train_tree: other parameters')

        def req(eng, this, vals, st):
            off, (l, t) = s.args(f, vals)
            return [('the same point', AND(off == 0, l == s.label, t >= 0, t < s.T))] + s.tree_pre(st, t) + s.inv(st)

        def ens(eng, this, vals, pre, st, ret):
            _, (l, t) = s.args(f, vals)
            return s.tree_post(pre, st, t, ret)
        s.eng.contracts[f.id] = Contract(requires=req, modifies=lambda *a: s.allkeys(), ensures=ens)
        return f

    # ---- prediction
    def height(s, S):
        """H(i): number of nodes with a greater rank than node i: smaller for the children (lemma by induction on the number of nodes)"""
        e = s.eng
        RA = e.get(S, RANK)
        C = z3.Function('above', R, I, I)
        r1, r2, n, c, m = Real('r1_'), Real('r2_'), Int('n_'), Int('c_'), Int('m_')
        unf = lambda r, n: C(r, n + 1) == C(r, n) + z3.If(z3.Select(RA, n) > r, IV(1), IV(0))
        hyp = AND(r1 < r2, z3.Select(RA, c) == r2)
        rel = lambda n: AND(C(r1, n) >= C(r2, n) + z3.If(AND(c >= 0, c < n), IV(1), IV(0)), C(r2, n) >= 0)
        e.prove('lemma: fewer nodes are above a child', AND(IMP(AND(hyp, C(r1, 0) == 0, C(r2, 0) == 0), rel(IV(0))), IMP(AND(hyp, n >= 0, unf(r1, n), unf(r2, n), rel(n)), rel(n + 1))), State())
        i = qv('i')
        H = lambda i: C(z3.Select(RA, i), s.size(S))
        for k in (s.CL, s.CR):
            j = s.at(S, k, i)
            e.assume(FA(i, IMP(AND(s.slot(i), s.inside(S, i), s.inside(S, j), z3.Select(RA, i) < z3.Select(RA, j)), AND(H(j) >= 0, H(i) > H(j))), s.at(S, k, i)))
        return H

    def size(s, S): return s.N
    def inside(s, S, i): return s.slot(i)

    def contract_update(s):
        fs = [m for m in s.rec.methods if m.name == 'update_posterior_count' and m.body is not None]
        one, all_ = [m for m in fs if len(m.params) == 1], [m for m in fs if len(m.params) == 0]
        if len(one) != 1 or len(all_) != 1: raise ExtractError('update_posterior_count: other overloads')

        def req(eng, this, vals, st):
            i = vals[0]
            out = [('a node of a tree', AND(s.slot(i), s.linked(st, i)))] + s.inv(st)
            if hasattr(s, 'node'): out.append(('down the tree', z3.Select(eng.get(st, RANK), i) > z3.Select(eng.get(s.S0, RANK), s.node)))
            return out
        s.eng.contracts[one[0].id] = Contract(requires=req, modifies=lambda *a: [s.CT], ensures=lambda eng, this, vals, pre, st, r: s.inv(st) + s.counted(pre, st))
        return one[0], all_[0]

    def contract_update_all(s):
        one, up = s.contract_update()
        s.eng.contracts[up.id] = Contract(requires=lambda eng, this, vals, st: s.inv(st), modifies=lambda *a: [s.CT], ensures=lambda eng, this, vals, pre, st, r: s.inv(st) + s.counted(pre, st))

    def counted(s, S0, S1):
        i, l = qv('i'), qv('l')
        return [('leaves keep their counts', FA([i, l], IMP(AND(s.slot(i), s.isleaf(S1, i)), s.at(S1, s.CT, i, l) == s.at(S0, s.CT, i, l)), s.at(S1, s.CT, i, l))),
                ('total kept', s.eng.get(S1, TOT) == s.eng.get(S0, TOT))]

    def PM(s, S, t, l):
        """the posterior mean of label l in tree t: a function of the forest"""
        ks = [s.eng.get(S, k) for k in s.nodekeys + [s.RO, s.xk]]
        return z3.Function('PM', *[k.sort() for k in ks], I, I, R)(*ks, t, l)

    def contract_predict_tree(s):
        f = s.prog.func(s.rec, 'predict_tree')
        if len(f.params) != 3: raise ExtractError('predict_tree: other parameters')

        def parts(vals):
            ps = [v for v in vals if isinstance(v, Ptr)]
            n = [v for v in vals if isinstance(v, z3.ExprRef)]
            x = [p for p in ps if len(p.alts) == 1 and p.alts[0][1].root == 'features']
            o = [p for p in ps if p not in x]
            if len(x) != 1 or len(o) != 1 or len(n) != 1 or len(o[0].alts) != 1: raise Unsupported('predict_tree: arguments')
            return x[0].alts[0][1], o[0].alts[0][1], n[0]

        def req(eng, this, vals, st):
            x, o, t = parts(vals)
            return [('the same point', x.idx[-1] == 0), ('a tree', AND(t >= 0, t < s.T)), ('room for the labels', AND(o.idx[-1] >= 0, o.idx[-1] + s.L <= o.dim) if o.dim is not None else Ff)] + s.inv(st)

        def eff(eng, this, vals, st):
            x, o, t = parts(vals)
            A = eng.get(st, o.key)
            if len(o.idx) != 1: raise Unsupported('predict_tree: result in an array of arrays')
            new = eng.fresh('posterior', A.sort())
            k, off = qv('k'), o.idx[-1]
            inside = AND(k >= off, k < off + s.L)
            eng.facts.append(FA(k, z3.Select(new, k) == z3.If(inside, s.PM(st, t, k - off), z3.Select(A, k)), z3.Select(new, k)))
            st.mem[o.key] = new
        s.eng.contracts[f.id] = Contract(requires=req, effect=eff)
        return f

    def utils_contracts(s):
        """turn_array_into_probability and pick_from_distribution as proved by the tasks of the same name"""
        e = s.eng
        u = s.prog.rec('Utils')
        for f in u.methods:
            if f.body is None: continue
            if f.name == 'turn_array_into_probability':
                def turn(eng, this, vals, st):
                    p, n, tot = vals[0], vals[1], (vals[2] if len(vals) > 2 else None)
                    lv = p.alts[0][1]
                    if tot is None or len(p.alts) != 1: raise Unsupported('turn_array_into_probability without its total')
                    A = eng.get(st, lv.key)
                    new = eng.fresh('cumulative', A.sort())
                    k = qv('k')
                    D = z3.Function('over_total', R, R)
                    x = qv('x', R)
                    eng.facts.append(FA(x, AND(IMP(x > 0, D(x) > 0), IMP(x == 0, D(x) == 0)), D(x)))
                    P = Sum(eng, f'PS{next(eng.fresh_n)}', lambda k: z3.Select(A, k))
                    # division by the total is additive: cumulative(k) - cumulative(k-1) = weight(k) / total
                    eng.facts.append(FA(k, IMP(AND(k >= 0, k < n), z3.Select(new, k) == z3.If(k == 0, RV0, z3.Select(new, k - 1)) + D(z3.Select(A, k))), z3.Select(new, k)))
                    st.mem[lv.key] = new
                def turn_req(eng, this, vals, st):
                    lv = vals[0].alts[0][1]
                    k = qv('k')
                    return [('weights are not negative', FA(k, IMP(AND(k >= 0, k < vals[1]), z3.Select(eng.get(st, lv.key), k) >= 0))), ('the total is positive', vals[2] > 0), ('a size', vals[1] >= 1)]
                e.contracts[f.id] = Contract(requires=turn_req, effect=turn)
            if f.name == 'pick_from_distribution':
                def pick(eng, this, vals, st):
                    lv = vals[0].alts[0][1]
                    A = eng.get(st, lv.key)
                    r = eng.fresh('picked', I)
                    u = s.draw(eng, [], st)
                    eng.facts.append(AND(r >= 0, r <= vals[1], IMP(r < vals[1], AND(z3.Select(A, r) > u, IMP(r > 0, z3.Select(A, r - 1) <= u)))))
                    return r
                e.contracts[f.id] = Contract(effect=pick)

    def fixed(s, L): return fixed_terms(L)

    def cands(s, L):
        e = s.eng
        out = [('total kept', lambda S: e.get(S, TOT) == e.get(L.pre, TOT)), ('witness kept', lambda S: e.get(S, LEAF) == e.get(L.pre, LEAF))]
        fixed = s.fixed(L)
        known = [s.label.get_id()] if hasattr(s, 'label') else []
        if hasattr(s, 'tree'): known.append(s.tree.get_id())
        fixed = [(n, t) for n, t in fixed if t.get_id() not in known and not z3.is_int_value(t)]
        at_ = [s.node] if hasattr(s, 'node') else []
        fixed.sort(key=lambda x: not any(x[1] is t for t in at_))
        out += prefix(L, 'not free', lambda S, j: s.at(S, s.TAU, j) >= 0, hi=s.N) if s.TAU not in L.mods and hasattr(s, 'N') else []
        X = getattr(s, 'X', None)
        arrs = [(n, k) for n, k in float_arrays(L) if k in L.mods]
        if X is not None:
            for k0 in (s.LO, s.UP):
                if k0 not in L.mods or not s.geo: continue
                A0 = e.get(L.pre, k0)
                for tn, t in fixed:
                    grow = (lambda j, A0=A0, t=t, k0=k0: z3.If(z3.Select(X, j) < SEL(A0, t, j), z3.Select(X, j), SEL(A0, t, j)) if k0 is s.LO else z3.If(z3.Select(X, j) > SEL(A0, t, j), z3.Select(X, j), SEL(A0, t, j)))
                    for nm, val in (('grown', grow), ('set', lambda j: z3.Select(X, j))):
                        out += prefix(L, f'{last(k0)} of {tn} {nm}', lambda S, j, k0=k0, t=t, val=val: s.at(S, k0, t, j) == val(j), hi=s.F, pats=lambda S, j, k0=k0, t=t: [s.at(S, k0, t, j)])
                    out += prefix(L, f'{last(k0)} of {tn} not yet', lambda S, j, k0=k0, t=t, A0=A0: s.at(S, k0, t, j) == SEL(A0, t, j), hi=s.F, pats=lambda S, j, k0=k0, t=t: [s.at(S, k0, t, j)])
                    i, j = qv('i'), qv('j')
                    out.append((f'{last(k0)} kept but {tn}', lambda S, k0=k0, t=t, A0=A0: (lambda i: FA(i, IMP(i != t, z3.Select(e.get(S, k0), i) == z3.Select(A0, i)), z3.Select(e.get(S, k0), i)))(qv('i'))))
                    # hull of another node and the point
                    for un, u in [('the node', t) for t in at_]:
                        if u is t: continue
                        hull = (lambda j, A0=A0, u=u, k0=k0: z3.If(z3.Select(X, j) < SEL(A0, u, j), z3.Select(X, j), SEL(A0, u, j)) if k0 is s.LO else z3.If(z3.Select(X, j) > SEL(A0, u, j), z3.Select(X, j), SEL(A0, u, j)))
                        out += prefix(L, f'{last(k0)} of {tn} hull with {un}', lambda S, j, k0=k0, t=t, hull=hull: s.at(S, k0, t, j) == hull(j), hi=s.F, pats=lambda S, j, k0=k0, t=t: [s.at(S, k0, t, j)])
            # how far the point is out of a box
            for n, k in arrs:
                for tn, t in [('the node', t) for t in at_]:
                    lo, up = (lambda j, t=t: s.at(L.pre, s.LO, t, j)), (lambda j, t=t: s.at(L.pre, s.UP, t, j))
                    pos = lambda v: z3.If(v > 0, v, z3.RealVal(0))
                    for w, val in (('below', lambda j, lo=lo: pos(lo(j) - z3.Select(X, j))), ('above', lambda j, up=up: pos(z3.Select(X, j) - up(j))), ('outside', lambda j, lo=lo, up=up: pos(lo(j) - z3.Select(X, j)) + pos(z3.Select(X, j) - up(j)))):
                        out += prefix(L, f'{n} is how far the point is {w} {tn}', lambda S, j, k=k, val=val: z3.Select(e.get(S, k), j) == val(j), hi=s.F, pats=lambda S, j, k=k: [z3.Select(e.get(S, k), j), z3.Select(X, j)])
            for nr, kr in L.real_keys(True):
                out.append((f'{nr} >= 0', lambda S, kr=kr: e.get(S, kr) >= 0))
                for n, k in float_arrays(L) if s.geo else []:
                    for inm, ik in L.int_keys(True):
                        out.append((f'{nr} is zero or some {n} is not', lambda S, kr=kr, k=k, ik=ik: OR(e.get(S, kr) == 0, s.NZ(e.get(S, k), L.val(S, ik)))))
            for n, k in float_arrays(L):
                if k in L.mods: continue
                out += prefix(L, f'{n} is zero', lambda S, j, k=k: z3.Select(e.get(S, k), j) == 0, hi=s.F, pats=lambda S, j, k=k: [z3.Select(e.get(S, k), j), z3.Select(X, j)])
        for k in L.mods:       # cells given one value after the other
            if k[1].count('[]') == 1 and k not in (OWN, RANK) and e.leaf_ty.get(k) is not None and e.leaf_ty[k].k == 'int':
                for c in (0, -1): out += prefix(L, f"{'.'.join(k[1])} is {c}", lambda S, j, k=k, c=c: z3.Select(e.get(S, k), j) == c, pats=lambda S, j, k=k: [z3.Select(e.get(S, k), j)])
        # counters being cleared
        if s.CT in L.mods:
            A0 = e.get(L.pre, s.CT)
            out.append(('counts not negative', lambda S: (lambda i, l: FA([i, l], IMP(AND(s.slot(i), l >= 0, l < s.L), s.at(S, s.CT, i, l) >= 0), s.at(S, s.CT, i, l)))(qv('i'), qv('l'))))
            for tn, t in fixed:
                out.append((f'counters kept but {tn}', lambda S, t=t, A0=A0: (lambda i: FA(i, IMP(i != t, z3.Select(e.get(S, s.CT), i) == z3.Select(A0, i)), z3.Select(e.get(S, s.CT), i)))(qv('i'))))
                out += prefix(L, f'counters of {tn} zero', lambda S, j, t=t: s.at(S, s.CT, t, j) == 0, hi=s.L, pats=lambda S, j, t=t: [s.at(S, s.CT, t, j)])
                out += prefix(L, f'counters of {tn} not yet', lambda S, j, t=t, A0=A0: s.at(S, s.CT, t, j) == SEL(A0, t, j), hi=s.L, pats=lambda S, j, t=t: [s.at(S, s.CT, t, j)])
        return out

    def rerank(s, S0, S1):
        """ghost code at the end of a growth: nodes added get ranks between their neighbours"""
        e = s.eng
        i = qv('i')
        R1 = e.get(S1, RANK)
        new = e.fresh('rank', R1.sort())
        rk = lambda x: z3.Select(R1, x)
        fresh = lambda x: AND(s.own(S0, x) == -1, s.own(S1, x) != -1)
        at = lambda k, x: s.at(S1, k, x)
        old = lambda x: z3.If(fresh(at(s.CL, x)), at(s.CR, x), at(s.CL, x))        # the child of an added parent that was there before
        mid = lambda x: z3.If(at(s.PA, x) == s.NUL, rk(old(x)) - 1, (rk(at(s.PA, x)) + rk(old(x))) / 2)
        v = z3.If(AND(e.get(S1, DONE) == 0, s.slot(i), fresh(i)), z3.If(s.isleaf(S1, i), z3.If(at(s.PA, i) == s.NUL, RV0, rk(old(at(s.PA, i)))), mid(i)), rk(i))
        e.facts.append(FA(i, z3.Select(new, i) == v, z3.Select(new, i)))
        S1.mem[RANK] = new


RV0 = z3.RealVal(0)
def last(k): return next(x for x in reversed(k[1]) if x != '[]')


def extend(geo, cls=M):
    def t(ck):
        s = cls(ck, geo)
        e = s.eng
        s.start()
        s.point()
        if geo: s.nonzero()
        s.utils_contracts()
        f = s.contract_extend()
        s.contract_available()
        ck.under(f)
        e.inv_hooks.append(s.cands)
        node, tree = Int('node_id'), Int('tree_id')
        s.node, s.tree = node, tree
        for _, g in s.at_node(s.S, node, tree): e.assume(g)
        s.S.mem[CUR] = tree
        s.S.mem[DONE] = IV(0)
        S0 = s.S0 = s.S.copy()
        e.invoke(f, s.this, [node, tree, s.p, s.label], s.S)
        s.rerank(S0, s.S)
        for nm, g in s.inv(s.S) + s.grown(S0, s.S, tree): e.prove(nm, g, s.S)
        frame(e, S0, s.S, s.this, skip=[k[1] for k in s.nodekeys] + [s.RO[1]] + s.free_frame)
        e.prove('the point is unchanged', unchanged(e, S0, s.S, s.xk), s.S)
        ck.cover(e, s.S)
    return t


def train_tree(geo, cls=M):
    def t(ck):
        s = cls(ck, geo)
        e = s.eng
        s.start()
        s.point()
        s.contract_extend()
        s.contract_available()
        f = s.contract_tree()
        ck.under(f)
        e.inv_hooks.append(s.cands)
        s.tree = tree = Int('tree_id')
        e.assume(AND(tree >= 0, tree < s.T))
        for _, g in s.tree_pre(s.S, tree): e.assume(g)
        s.S.mem[CUR] = tree
        s.S.mem[DONE] = IV(0)
        S0 = s.S0 = s.S.copy()
        names = [p['name'] for p in f.params]
        r = e.invoke(f, s.this, s.order(f, tree), s.S)
        s.rerank(S0, s.S)
        for nm, g in s.tree_post(S0, s.S, tree, r): e.prove(nm, g, s.S)
        frame(e, S0, s.S, s.this, skip=[k[1] for k in s.nodekeys] + [s.RO[1]] + s.free_frame)
        e.prove('the point is unchanged', unchanged(e, S0, s.S, s.xk), s.S)
        ck.cover(e, s.S)
    return t


def train(geo, cls=M):
    def t(ck):
        s = cls(ck, geo)
        e = s.eng
        s.opaque = True
        s.start()
        s.point()
        s.contract_tree()
        f = s.prog.func(s.rec, 'train')
        ck.under(f)
        i, l, fq, tq = qv('i'), qv('l'), qv('f'), qv('t')
        roots = lambda S, j: s.at(S, s.RO, j) != s.NUL
        # a forest before its first point or one whose trees all have a root
        none = AND((lambda j: FA(j, IMP(AND(j >= 0, j < s.T), NOT(roots(s.S, j))), s.at(s.S, s.RO, j)))(qv()), e.get(s.S, USED) == 0)
        all_ = lambda S: (lambda j: FA(j, IMP(AND(j >= 0, j < s.T), roots(S, j)), s.at(S, s.RO, j)))(qv())
        first = z3.Bool('first')
        e.assume(IMP(first, none))
        e.assume(IMP(NOT(first), all_(s.S)))
        S0 = s.S0 = s.S.copy()
        def cands(L):
            out = [(f'inv: {nm}', (lambda S, k=k: s.inv(S)[k][1])) for k, (nm, _) in enumerate(s.inv(L.pre))]
            for nm, key in L.int_keys(True):
                v = lambda S, key=key: L.val(S, key)
                out += [(f'first: trees before {nm} have a root', lambda S, v=v: (lambda j: FA(j, IMP(AND(j >= 0, j < s.T), IMP(first, roots(S, j) == (j < v(S)))), s.at(S, s.RO, j)))(qv())),
                        (f'first: used {nm}', lambda S, v=v: IMP(first, e.get(S, USED) == v(S)))]
                done = lambda S, v=v: v(S) > s.t0
                for k, (n2, _) in enumerate(s.grown(S0, L.pre, s.t0)):
                    if n2.startswith('other') or n2.startswith('new nodes') or n2.startswith('the roots'): continue
                    out.append((f'past t0 ({nm}): {n2}', lambda S, k=k, done=done: IMP(done(S), s.grown(S0, S, s.t0)[k][1])))
                out.append((f'not yet ({nm})', lambda S, done=done: IMP(NOT(done(S)), AND(e.get(S, TOT) == e.get(S0, TOT), e.get(S, LEAF) == e.get(S0, LEAF)))))
                out.append((f'not yet ({nm}): leaves', lambda S, done=done: (lambda i, l: FA([i, l], IMP(AND(NOT(done(S)), s.slot(i), s.own(S, i) == s.t0, s.isleaf(S, i), l >= 0, l < s.L), s.at(S, s.CT, i, l) == s.base(S0, i, l)), s.at(S, s.CT, i, l)))(qv('i'), qv('l'))))
            out.append(('all have roots', lambda S: IMP(NOT(first), all_(S))))
            for k, (n2, _) in enumerate(s.grown(S0, L.pre, s.t0)):
                if n2 in ('nodes stay in their trees', 'leaves stay leaves', 'nodes stay linked', 'boxes only grow', 'splits stay', 'split values stay', 'split times stay', 'addresses are given out in order'): out.append((f'always: {n2}', lambda S, k=k: s.grown(S0, S, s.t0)[k][1]))
            for nb, kb in L.bool_keys(True): out += [(f'{nb}', lambda S, kb=kb: L.val(S, kb)), (f'not {nb}', lambda S, kb=kb: NOT(L.val(S, kb)))]
            return out
        e.inv_hooks.append(cands)
        r = e.invoke(f, s.this, s.order(f, None), s.S)
        G = s.grown(S0, s.S, s.t0)
        for nm, g in s.inv(s.S) + [x for x in G if not x[0].startswith('other') and not x[0].startswith('new nodes') and not x[0].startswith('the roots')]: e.prove(nm, g, s.S)
        e.prove('every tree has a root', all_(s.S), s.S)
        e.prove('training succeeds', r, s.S)
        frame(e, S0, s.S, s.this, skip=[k[1] for k in s.nodekeys] + [s.RO[1]] + s.free_frame)
        e.prove('the point is unchanged', unchanged(e, S0, s.S, s.xk), s.S)
        ck.cover(e, s.S)
    return t


def constructed(geo):
    def t(ck):
        s = M(ck, geo)
        e = s.eng
        f = [m for m in s.rec.methods if m.kind == 'CXXConstructorDecl' and m.body is not None and len(m.params) == 3][0]
        ck.under(f)
        e.inv_hooks.append(s.cands)
        vals = [Real('lifetime'), Real('base_measure'), Real('discount_factor')]
        e.assume(vals[0] >= 0)
        i = qv('i')
        s.S.mem[OWN] = z3.K(I, IV(-1))
        s.S.mem[USED] = IV(0)
        s.S.mem[RANK] = z3.K(I, RV0)
        S0 = s.S.copy()
        e.invoke(f, s.this, vals, s.S)
        s.lt = e.get(s.S, s.LT)
        for nm, g in s.inv(s.S): e.prove(nm, g, s.S)
        e.prove('no tree has a root', (lambda j: FA(j, IMP(AND(j >= 0, j < s.T), s.at(s.S, s.RO, j) == -1)))(qv()), s.S)
        e.prove('the lifetime is kept', s.lt == vals[0], s.S)
        e.prove('the base measure is kept', e.get(s.S, s.BM) == vals[1], s.S)
        e.prove('the discount factor is kept', e.get(s.S, s.DF) == vals[2], s.S)
        ck.cover(e, s.S)
    return t


def updated(ck):
    s = M(ck, False)
    e = s.eng
    s.start()
    f, g = s.contract_update()
    ck.under(f)
    e.inv_hooks.append(s.cands)
    s.node = node = Int('node_id')
    e.assume(AND(s.slot(node), s.linked(s.S, node)))
    S0 = s.S0 = s.S.copy()
    e.invoke(f, s.this, [node], s.S)
    for nm, q in s.inv(s.S) + s.counted(S0, s.S): e.prove(nm, q, s.S)
    frame(e, S0, s.S, s.this, skip=[s.CT[1]])
    ck.cover(e, s.S)


def updated_all(ck):
    s = M(ck, False)
    e = s.eng
    s.opaque = True
    s.start()
    f, g = s.contract_update()
    ck.under(g)
    S0 = s.S0 = s.S.copy()
    e.contracts[f.id].requires = lambda eng, this, vals, st: [('the root of a tree', AND(vals[0] != -1, (lambda t: NOT(FA(t, IMP(AND(t >= 0, t < s.T), vals[0] != s.at(st, s.RO, t)), s.at(st, s.RO, t))))(qv('t'))))] + s.inv(st)

    def cands(L):
        return [(nm, lambda S, k=k: (s.inv(S) + s.counted(S0, S))[k][1]) for k, (nm, _) in enumerate(s.inv(L.pre) + s.counted(S0, L.pre))]
    e.inv_hooks.append(cands)
    e.invoke(g, s.this, [], s.S)
    for nm, q in s.inv(s.S) + s.counted(S0, s.S): e.prove(nm, q, s.S)
    frame(e, S0, s.S, s.this, skip=[s.CT[1]])
    ck.cover(e, s.S)


def predict_tree(cls=M):
    def t(ck):
        s = cls(ck, False)
        e = s.eng
        e.fdiv = lambda a, b, st: s.DIV(a, b)
        s.start()
        s.point()
        f = s.contract_predict_tree()
        ck.under(f)
        H = s.height(s.S)
        t = Int('tree_id')
        e.assume(AND(t >= 0, t < s.T))
        out = array(e, 'posterior', FLT, s.L)
        S0 = s.S0 = s.S.copy()

        def cands(L):
            r = []
            for n, k in L.int_keys(True):
                v = lambda S, k=k: L.val(S, k)
                r += [(f'{n} is a node of a tree or none', lambda S, v=v: OR(v(S) == s.NUL, AND(s.slot(v(S)), s.linked(s.S, v(S)))))]
            return r
        e.inv_hooks.append(cands)
        e.measure_hooks.append(lambda L: [(lambda S, k=k: z3.If(s.inside(S0, L.val(S, k)), H(L.val(S, k)), IV(-1))) for n, k in L.int_keys(True)])
        vals = [s.p if s.prog.ty(p, e).k == 'ptr' and 'const' in p['type']['qualType'] else out if s.prog.ty(p, e).k == 'ptr' else t for p in f.params]
        S0 = s.S0 = s.S.copy()
        e.invoke(f, s.this, vals, s.S)
        frame(e, S0, s.S, s.this)
        e.prove('the point is unchanged', unchanged(e, S0, s.S, s.xk), s.S)
        ck.cover(e, s.S)
    return t


def predict(give, cls=M):
    def t(ck):
        s = cls(ck, False)
        e = s.eng
        s.opaque = True
        s.start()
        s.point()
        s.contract_predict_tree()
        s.contract_update_all()
        f = s.prog.func(s.rec, 'predict')
        ck.under(f)
        scores = array(e, 'scores', FLT, s.L) if give else NULL()
        S0 = s.S0 = s.S.copy()
        box = {}

        def now(L):
            S = L.pre
            key = tuple(e.get(S, k).get_id() for k in s.nodekeys + [s.RO, s.xk])
            if key not in box: box[key] = (Sum(e, f'PS{len(box)}', lambda l, t: s.PM(S, t, l), 1), S)
            return box[key][0]

        def avg(P, l): return s.DIV(P(l, s.T), z3.ToReal(s.T))

        def cands(L):
            P = now(L)
            out = []
            arrs = [n_k for n_k in float_arrays(L)] + ([('scores', ('scores', ('[]',)))] if give else [])
            for nm, key in arrs:
                c = lambda S, j, key=key: z3.Select(e.get(S, key), j)
                pt = lambda S, j, c=c: [c(S, j)]
                out += prefix(L, f'{nm} is the average', lambda S, j, c=c: c(S, j) == avg(P, j), hi=s.L, pats=pt)
                out.append((f'{nm} all averages', lambda S, c=c: (lambda j: FA(j, IMP(AND(j >= 0, j < s.L), c(S, j) == avg(P, j)), c(S, j)))(qv())))
                out += prefix(L, f'{nm} is the sum', lambda S, j, c=c: c(S, j) == P(j, s.T), hi=s.L, pats=pt)
                out += prefix(L, f'{nm} is zero', lambda S, j, c=c: c(S, j) == 0, hi=s.L, pats=pt)
                for n2, k2 in L.int_keys(None):
                    b = lambda S, k2=k2: L.val(S, k2)
                    out += prefix(L, f'{nm} is the sum below {n2}', lambda S, j, c=c, b=b: c(S, j) == P(j, b(S)), hi=s.L, pats=pt)
                    out += prefix(L, f'{nm} is the sum up to {n2}', lambda S, j, c=c, b=b: c(S, j) == P(j, b(S) + 1), hi=s.L, pats=pt)
                    out.append((f'{nm} all sums below {n2}', lambda S, c=c, b=b: (lambda j: FA(j, IMP(AND(j >= 0, j < s.L), c(S, j) == P(j, b(S))), c(S, j)))(qv())))
            for nm, key in L.int_keys(True):
                b = lambda S, key=key: L.val(S, key)
                out += prefix(L, f'{nm} is a maximum', lambda S, j, b=b: avg(P, j) <= avg(P, b(S)), hi=s.L)
                out += prefix(L, f'{nm} is the first maximum', lambda S, j, b=b: IMP(j < b(S), avg(P, j) < avg(P, b(S))), hi=s.L)
                for nr, kr in L.real_keys(True): out.append((f'{nr} is the average of {nm}', lambda S, kr=kr, b=b: e.get(S, kr) == avg(P, b(S))))
            for n2, k2 in L.int_keys(None):
                for n3, k3 in L.int_keys(True):
                    for nr, kr in L.real_keys(True): out.append((f'{nr} is the sum of {n2} below {n3}', lambda S, kr=kr, k2=k2, k3=k3: e.get(S, kr) == P(L.val(S, k2), L.val(S, k3))))
            return out
        e.inv_hooks.append(cands)
        vals = [s.p, scores] if len(f.params) == 2 else [s.p]
        r = e.invoke(f, s.this, vals, s.S)

        class L_: pre = s.S
        P = now(L_)
        j = qv('j')
        e.prove('a label', AND(r >= 0, r < s.L), s.S)
        e.prove('no label has a greater average', FA(j, IMP(AND(j >= 0, j < s.L), avg(P, j) <= avg(P, r))), s.S)
        e.prove('the first such label', FA(j, IMP(AND(j >= 0, j < r), avg(P, j) < avg(P, r))), s.S)
        if give: e.prove('the averages are given to the caller', FA(j, IMP(AND(j >= 0, j < s.L), z3.Select(e.get(s.S, ('scores', ('[]',))), j) == avg(P, j))), s.S)
        for nm, q in s.inv(s.S) + s.counted(S0, s.S): e.prove(nm, q, s.S)
        frame(e, S0, s.S, s.this, skip=[s.CT[1]])
        e.prove('the point is unchanged', unchanged(e, S0, s.S, s.xk), s.S)
        ck.cover(e, s.S)
    return t


def available(ck):
    s = M(ck, False)
    e = s.eng
    s.start()
    f = s.contract_available()
    if f is None: return
    ck.under(f)
    e.inv_hooks.append(s.cands)
    S0 = s.S.copy()
    r = e.invoke(f, s.this, [], s.S)
    for nm, g in s.available_post(s.S, r): e.prove(nm, g, s.S)
    s.pigeonhole()
    frame(e, S0, s.S, s.this)
    ck.cover(e, s.S)


ASSUME = ['allocating a node of the unbound forest succeeds; std::vector behaves as the standard says', 'features are double and finite', 'draws lie in [0,1)', 'the lifetime is not negative', 'fewer than 2^31-2 points per leaf and label']
NOTE = 'Every obligation for mondrian.hpp and mondrian_unbound.hpp is generated from the current source for symbolic template parameters and unbounded loops, with real arithmetic for floating point. The destructor of the unbound forest is only run natively.'
base = dict(note=NOTE, headers=[HDR, 'mondrian_unbound.hpp'], native='mondrian.cpp', native_flags=['-fno-access-control'], programs=[PROG], assumptions=ASSUME)
def training(geo): return [('constructor', constructed(geo)), ('available_node', available), ('extend_block', extend(geo)), ('train_tree', train_tree(geo)), ('train', train(geo))]


SPECS = {
    'C28': dict(base, tasks=training(False)),
    'C29': dict(base, tasks=training(True) + [('pick_from_distribution', utils.pick), ('turn_array_into_probability', utils.turn('given'))], programs=[PROG, utils.base['programs'][0]]),
    'C30': dict(base, tasks=[('update', updated), ('update all', updated_all), ('predict_tree', predict_tree()), ('predict', predict(False)), ('predict with scores', predict(True))]),
}
