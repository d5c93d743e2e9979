"""Contracts of src/mondrian_unbound.hpp (C28, C29, C30): the forest whose nodes are allocated one by one.

The nodes are a heap of records of three classes seen at the same address: the fields of MondrianNode (N), InternalNode (IN) and LeafNode (LF).
kind(a) is the class a node was allocated with, top the last address given out; own(a) the tree a node was allocated for."""
from lib import *
import mondrian
from mondrian import M, R, I, B, OWN, CUR, TOT, LEAF, RANK, DONE, USED, RV0

HDR = 'mondrian_unbound.hpp'
PRE = mondrian.PRE
INST = 'template class MondrianForestUnbound<double, Fn, 4, 5>; inline void use_(){ MondrianForestUnbound<double, Fn, 4, 5> a(1.0, 0.5, 1.0, 3); double x[4]; a.train(x, 1); a.predict(x); }'
PROG = dict(header=HDR, inst=INST, pre=PRE)
TOP, KIND = ('ghost_top', ()), ('ghost_kind', ('[]',))
INNER, LEAFK = 1, 2


class U(M):
    NUL = 0

    def __init__(s, ck, geo):
        s.ck, s.geo, s.opaque = ck, geo, False
        s.prog = ck.prog(HDR, INST, pre=PRE)
        s.F, s.L = Int('feature_count'), Int('label_count')
        s.eng = e = ck.engine(s.prog, dict(feature_count=s.F, label_count=s.L))
        e.assume(AND(s.F >= 1, s.L >= 1, s.F < 2 ** 24, s.L < 2 ** 24))
        e.rmul = s.product
        s.PROD = z3.Function('PROD', R, R, R)
        s.DIV = z3.Function('DIV', R, R, R)
        e.fdiv = lambda a, b, st: s.DIV(a, b)
        s.rec, s.nd, s.ind, s.lfd = [s.prog.rec(n) for n in ('MondrianForestUnbound', 'MondrianNode', 'InternalNode', 'LeafNode')]
        for n, r in (('MondrianNode', 'N'), ('InternalNode', 'IN'), ('LeafNode', 'LF')): e.heap[n] = r
        s.this = obj(e, s.rec)
        for rec, r in ((s.nd, 'N'), (s.ind, 'IN'), (s.lfd, 'LF')):
            for p, t in e.leaves(T('rec', rec=rec, name=rec.name)): e.leaf_ty[(r, ('[]',) + p)] = t
        fl, it = (lambda t: t.k == 'float'), (lambda t: t.k == 'int')
        pt, ar = (lambda t: t.k == 'ptr'), (lambda k: (lambda t: t.k == 'arr' and t.to.k == k))
        own = lambda rec: type('own', (), dict(all_fields=lambda self, p: rec.fields, name=rec.name))()
        n = lambda root, rec, nm, p, nth=0, *x: (root, ('[]', fld(s.prog, own(rec), nm, p, e, nth)) + x)
        s.CL, s.CR, s.PA = n('N', s.nd, 'child_left', pt), n('N', s.nd, 'child_right', pt, 1), n('N', s.nd, 'parent', pt, 2)
        s.TAU = n('N', s.nd, 'tau', fl)
        s.LO, s.UP = n('N', s.nd, 'bound_lower', ar('float'), 0, '[]'), n('N', s.nd, 'bound_upper', ar('float'), 1, '[]')
        s.SD, s.SV, s.SC = n('IN', s.ind, 'split_dimension', it), n('IN', s.ind, 'split_value', fl), n('IN', s.ind, 'counters', ar('int'), 0, '[]')
        s.CT = n('LF', s.lfd, 'counters', ar('int'), 0, '[]')
        s.nodekeys = [s.SD, s.CL, s.CR, s.PA, s.SV, s.TAU, s.LO, s.UP, s.CT]
        h = lambda nm, p, nth=0, *x: ('this', (fld(s.prog, s.rec, nm, p, e, nth),) + x)
        vec = fld(s.prog, s.rec, 'roots', lambda t: t.k == 'rec' and t.rec is None, e)
        s.RO, s.LT, s.BM, s.DF, s.TC = ('this', (vec, '[]')), h('lifetime', fl), h('base_measure', fl, 1), h('discount_factor', fl, 2), h('tree_count', lambda t: t.k == 'int' and t.w == 32)
        s.counts = [k for k, t in keys_of(e, s.this) if t.k == 'int' and k != s.TC]
        for k in s.counts: e.limits[k] = 2 ** 62
        s.free_frame = [k[1] for k in s.counts]          # the statistics, which nothing reads
        nptr = T('ptr', to=T('rec', rec=s.nd, name='MondrianNode'))
        e.leaf_ty[s.RO] = nptr
        for k, t in ((OWN, I32), (CUR, I32), (TOT, I64), (LEAF, I64), (DONE, I32), (USED, I32), (RANK, FLT), (TOP, I64), (KIND, I32)): e.leaf_ty[k] = t
        e.models['operator[]'] = lambda eng, a, st, nd: LVs([(Tt, s.root_cell(eng, eng.lv(a[0], st), eng.convert(eng.ev(a[1], st), None, I64), st, nptr))])
        e.models['size'] = lambda eng, a, st, nd: s.T
        e.models['resize'] = s.resize
        e.new_hook, e.heap_valid, e.dyn_type = s.allocate, s.valid, lambda rec, a, st: s.of_kind(st, rec, a)
        s.S = State()
        e.houdini_rl = 300_000
        s.T = e.get(s.S, s.TC)
        e.assume(AND(s.T >= 1, s.T < 2 ** 31))
        s.lt = e.get(s.S, s.LT)
        s.draw = Draws(e, 0, 1, strict=True)
        s.draw.start(s.S)
        e.models['rand_uniform'] = s.draw
        real = lambda eng, a, st: eng.convert(eng.ev(a[0], st), None, FLT)
        s.LOG, s.EXP = z3.Function('log', R, R), z3.Function('exp', R, R)
        e.models['log'] = lambda eng, a, st, n: s.LOG(real(eng, a, st))
        e.models['exp'] = lambda eng, a, st, n: s.EXP(real(eng, a, st))
        s.t0, s.l0 = Int('t0'), Int('l0')
        e.assume(AND(s.t0 >= 0, s.t0 < s.T, s.l0 >= 0, s.l0 < s.L, s.lt >= 0, e.get(s.S, TOP) >= 0))

    # ---- heap
    def kind(s, S, a): return z3.Select(s.eng.get(S, KIND), a)
    def of_kind(s, S, rec, a): return s.kind(S, a) == (INNER if rec is s.ind or rec.name == 'InternalNode' else LEAFK) if rec.name != 'MondrianNode' else Tt
    def alloc(s, S, a): return AND(a >= 1, a <= s.eng.get(S, TOP))
    def valid(s, rec, a, st): return AND(s.alloc(st, a), s.of_kind(st, rec, a))
    def slot(s, i): return i >= 1          # own tells the nodes allocated from the others
    def isleaf(s, S, i): return s.kind(S, i) == LEAFK

    def root_cell(s, eng, alts, i, st, nptr):
        if len(alts) != 1 or (alts[0][1].root, alts[0][1].path + ('[]',)) != s.RO: raise Unsupported('operator[] of something else than the roots')
        eng.safety('index inside roots', AND(i >= 0, i < s.T), st)
        return LV(s.RO[0], s.RO[1], [i], nptr)

    def resize(s, eng, a, st, nd):
        eng.prove('the roots get a cell per tree', eng.ev(a[0], st) == eng.get(st, s.TC), st)
        v = eng.ev(a[1], st) if len(a) > 1 and a[1]['kind'] != 'CXXDefaultArgExpr' else IV(0)
        if isinstance(v, Ptr): v = IV(0)
        st.mem[s.RO] = z3.K(I, v)

    def allocate(s, eng, e, st):
        ty = eng.ety(e)
        rec = ty.to.rec
        ctor = next((c for c in eng.kids(e) if c['kind'] == 'CXXConstructExpr'), None)
        if rec is None or rec.name not in ('InternalNode', 'LeafNode') or ctor is None: raise Unsupported('new of something else than a node')
        a = z3.simplify(eng.get(st, TOP) + 1)
        st.mem[TOP] = a
        st.mem[KIND] = z3.Store(eng.get(st, KIND), a, IV(INNER if rec.name == 'InternalNode' else LEAFK))
        witness = eng.get(st, LEAF)
        eng.construct(LV(eng.heap[rec.name], ('[]',), [a], ty.to), ctor, st)
        st.mem[LEAF] = witness          # ghost code only follows the counts of nodes in use
        st.mem[OWN] = z3.Store(eng.get(st, OWN), a, eng.get(st, CUR))
        st.mem[TOT] = eng.get(st, TOT) + s.term(st, a)
        return a

    def term(s, st, a): return z3.If(AND(s.own(st, a) == s.t0, s.isleaf(st, a)), s.at(st, s.CT, a, s.l0), IV(0))

    def ghosts(s):
        e = s.eng

        def counted(st, key, idx, old, new): st.mem[LEAF] = z3.If(AND(new > old, e.get(st, CUR) == s.t0), idx[0], e.get(st, LEAF))
        if s.geo: e.ghosts.append(dict(watch={s.SD, s.SV}, act=s.split_lemma))
        e.ghosts += [dict(watch={s.CT}, act=counted), dict(watch={s.CT}, key=TOT, term=lambda st, key, idx: s.term(st, idx[0]))]

    # ---- the forest
    def inv(s, S, point=None):
        e = s.eng
        if s.opaque:
            ks = [e.get(S, k) for k in s.nodekeys + [s.RO, OWN, RANK, TOP, KIND]]
            return [('the forest is well formed', z3.Function('INV', *[k.sort() for k in ks], B)(*ks))]
        i, t, l = qv('i'), qv('t'), qv('l')
        own, at, kind = (lambda x: s.own(S, x)), (lambda k, *x: s.at(S, k, *x)), (lambda x: s.kind(S, x))
        cl, cr, pa = at(s.CL, i), at(s.CR, i), at(s.PA, i)
        lk = s.linked(S, i)
        inner = AND(s.slot(i), lk, NOT(s.isleaf(S, i)))
        child = lambda c: AND(s.slot(c), own(c) == own(i), at(s.PA, c) == i)
        out = [('the nodes allocated have a tree', FA(i, AND(own(i) >= -1, own(i) < s.T, (own(i) >= 0) == s.alloc(S, i)), own(i), kind(i))),
               ('a node is a leaf or an internal node', FA(i, IMP(own(i) >= 0, OR(kind(i) == INNER, kind(i) == LEAFK)), kind(i))),
               ('every node in use is part of its tree', FA(i, IMP(AND(s.slot(i), own(i) >= 0), lk), own(i))),
               ('an internal node has two children', FA(i, IMP(inner, AND(at(s.SD, i) >= 0, at(s.SD, i) < s.F, cl != cr)), own(i))),
               ('left children are in the tree', FA(i, IMP(inner, child(cl)), own(i))),
               ('right children are in the tree', FA(i, IMP(inner, child(cr)), own(i))),
               ('no node is above itself', FA(i, IMP(inner, AND(at(RANK, i) < at(RANK, cl), at(RANK, i) < at(RANK, cr))), own(i))),
               ('a node that is not a root is a child of its parent', FA(i, IMP(AND(s.slot(i), own(i) >= 0, pa != 0), AND(s.slot(pa), own(pa) == own(i), s.linked(S, pa), NOT(s.isleaf(S, pa)), OR(at(s.CL, pa) == i, at(s.CR, pa) == i))), own(i))),
               ('a root is a node of its tree', FA(t, IMP(AND(t >= 0, t < s.T, at(s.RO, t) != 0), AND(s.slot(at(s.RO, t)), own(at(s.RO, t)) == t, at(s.PA, at(s.RO, t)) == 0)), at(s.RO, t))),
               ('a tree with a node has a root', FA(i, IMP(AND(s.slot(i), own(i) >= 0), at(s.RO, own(i)) != 0), own(i))),
               ('counts are not negative', FA([i, l], IMP(AND(s.slot(i), own(i) >= 0, s.isleaf(S, i), l >= 0, l < s.L), at(s.CT, i, l) >= 0), at(s.CT, i, l)))]
        if s.geo: out += s.geometry(S)
        return out

    def size(s, S): return s.eng.get(S, TOP) + 1
    def inside(s, S, i): return s.alloc(S, i)

    def shape(s, S):
        """what the propagation of the inner counters relies on"""
        e = s.eng
        i = qv('i')
        at = lambda k, *x: s.at(S, k, *x)
        al = lambda a: s.alloc(S, a)
        return [('internal nodes have children', FA(i, IMP(AND(al(i), s.kind(S, i) == INNER), AND(al(at(s.CL, i)), al(at(s.CR, i)))), s.kind(S, i))),
                ('parents are above', FA(i, IMP(AND(al(i), at(s.PA, i) != 0), at(RANK, at(s.PA, i)) < at(RANK, i)), at(s.PA, i), s.kind(S, i))),
                ('parents are internal nodes', FA(i, IMP(al(i), AND(OR(s.kind(S, i) == INNER, s.kind(S, i) == LEAFK), OR(at(s.PA, i) == 0, AND(al(at(s.PA, i)), s.kind(S, at(s.PA, i)) == INNER)))), s.kind(S, i), at(s.PA, i)))]

    up = False

    def ranked(s, S):
        """the state with ranks for the nodes added: the counts are propagated before the end of the growth"""
        if s.up: return S
        S = S.copy()
        s.rerank(s.S0, S)
        return S

    def start(s, inv=True):
        e = s.eng
        if inv:
            for _, g in s.inv(s.S): e.assume(g)
        s.ghosts()
        e.limits[s.CT] = 2 ** 62
        s.virtuals()

    def virtuals(s):
        """contracts of the virtual functions, the same for every override"""
        e = s.eng
        a = lambda this: this.idx[0]
        lab = lambda vals: AND(vals[0] >= 0, vals[0] < s.L)
        for rec in (s.nd, s.ind, s.lfd):
            for f in rec.methods:
                if f.kind != 'CXXMethodDecl' or not (f.node.get('virtual') or f.name in ('is_leaf', 'get_counters', 'update_counters')): continue
                if f.name == 'is_leaf': e.contracts[f.id] = Contract(effect=lambda eng, this, vals, st: s.isleaf(st, a(this)))
                elif f.name == 'get_counters':
                    e.contracts[f.id] = Contract(requires=lambda eng, this, vals, st: [('a label', lab(vals))], effect=lambda eng, this, vals, st: s.get_counters(st, a(this), vals[0]))
                elif f.name == 'update_counters':
                    e.contracts[f.id] = Contract(requires=lambda eng, this, vals, st: ([('a label', lab(vals))] if vals else []) + [('a node', s.alloc(st, a(this)))] + s.shape(s.ranked(st)) + ([('up the tree', z3.Select(e.get(st, RANK), a(this)) < z3.Select(e.get(st, RANK), s.node))] if s.up else []), effect=s.update_effect)

    def get_counters(s, S, a, l):
        r = z3.If(s.isleaf(S, a), s.at(S, s.CT, a, l), s.at(S, s.SC, a, l))
        s.eng.rng(r, I64)
        return r

    def update_effect(s, eng, this, vals, st):
        """a leaf adds the quantity to its count; the counts of the nodes above are recomputed"""
        a = this.idx[0]
        if vals:
            lv = LV(s.CT[0], s.CT[1], [a, vals[0]], I64)
            old = eng.read_lv(lv, st)
            eng.write_lv(lv, z3.simplify(z3.If(s.isleaf(st, a), old + vals[1], old)), st)
        eng.havoc(st, s.SC)

    def fixed(s, L):
        out = fixed_terms(L)
        seen = {t.get_id() for _, t in out}
        for fr in L.eng.frames:
            for d in fr.order:
                root, ty = fr.locals[d]
                v = L.pre.mem.get((root, ()))
                if L.eng.is_heap(ty) and isinstance(v, z3.ExprRef) and v.get_id() not in seen and (root, ()) not in L.mods:
                    seen.add(v.get_id())
                    out.append((L.eng.prog.nodes.get(d, {}).get('name') or str(d), v))
        return out

    def kept_leaf(s, S0, S1):
        i = qv('i')
        return ('leaves stay leaves', FA(i, IMP(AND(s.slot(i), s.own(S0, i) >= 0), s.kind(S1, i) == s.kind(S0, i)), s.kind(S1, i)))

    def allkeys(s): return s.nodekeys + s.counts + [s.SC, s.RO, OWN, TOT, LEAF, RANK, DONE, s.draw.key, TOP, KIND]

    def grown(s, S0, S1, tree):
        return super().grown(S0, S1, tree) + [('addresses are given out in order', s.eng.get(S1, TOP) >= s.eng.get(S0, TOP))]

    def base(s, S, i, l): return z3.If(s.own(S, i) == s.t0, s.at(S, s.CT, i, l), IV(0))

    def contract_available(s): return None
    def tree_pre(s, S, t): return []
    def tree_post(s, S0, S1, t, r): return s.inv(S1) + s.grown(S0, S1, t) + [('training the tree succeeds', r)]
    def contract_update_all(s): pass


def leaf_methods(ck):
    """the overrides against the contracts of the virtual functions"""
    for name in ('is_leaf', 'get_counters', 'update_counters'):
        for rn in ('LeafNode', 'InternalNode'):
            s0 = U(ck, False)
            fs = [f for f in s0.prog.rec(rn).methods if f.name == name and f.body is not None]
            if not fs: raise ExtractError(f'no {name} in {rn}')
            for k in range(len(fs)):
                s = U(ck, False)
                e = s.eng
                rec = s.prog.rec(rn)
                f = [f for f in rec.methods if f.name == name and f.body is not None][k]
                ck.under(f)
                e.limits[s.CT] = 2 ** 62
                s.virtuals()
                s.up = True
                a, lab, q = Int('node'), Int('label'), Int('qty')
                s.node = a
                this = LV(e.heap[rn], ('[]',), [a], T('rec', rec=rec, name=rn))
                e.assume(AND(s.alloc(s.S, a), s.of_kind(s.S, rec, a), lab >= 0, lab < s.L, q >= 0, q <= 1))
                if name == 'update_counters':
                    for _, g in s.shape(s.S): e.assume(g)
                vals = [lab, q][:len(f.params)]
                S0 = s.S.copy()
                j, l = qv('j'), qv('l')
                r = e.invoke(f, this, vals, s.S)
                if name == 'is_leaf': e.prove(f'{rn}: tells a leaf', r == s.isleaf(S0, a), s.S)
                if name == 'get_counters': e.prove(f'{rn}: the count of the label', r == s.get_counters(S0, a, lab), s.S)
                if name == 'update_counters':
                    for nm, g in s.shape(s.S): e.prove(f'{rn}: {nm}', g, s.S)
                    if vals:
                        old = s.at(S0, s.CT, j, l)
                        e.prove(f'{rn}: a leaf adds the quantity to the count of the label, no other leaf count changes', FA([j, l], s.at(s.S, s.CT, j, l) == z3.If(AND(j == a, l == lab, s.isleaf(S0, a)), old + q, old), s.at(s.S, s.CT, j, l)), s.S)
                for key in s.nodekeys + [s.RO, TOP, KIND]:
                    if key == s.CT and vals and name == 'update_counters': continue
                    e.prove(f'{rn}::{name}: {".".join(x for x in key[1] if x != "[]") or key[0]} unchanged', unchanged(e, S0, s.S, key), s.S)
                frame(e, S0, s.S, s.this, skip=[s.RO[1][:1]])
                ck.cover(e, s.S)


def constructed(ck):
    s = U(ck, True)
    e = s.eng
    f = [m for m in s.rec.methods if m.kind == 'CXXConstructorDecl' and m.body is not None and len(m.params) == 4][0]
    ck.under(f)
    vals = [Real('lifetime'), Real('base_measure'), Real('discount_factor'), Int('trees')]
    e.assume(AND(vals[0] >= 0, vals[3] >= 1, vals[3] < 2 ** 31))
    s.S.mem[OWN] = z3.K(I, IV(-1))
    s.S.mem[RANK] = z3.K(I, RV0)
    s.S.mem[TOP] = IV(0)
    e.invoke(f, s.this, vals, s.S)
    s.lt, s.T = e.get(s.S, s.LT), e.get(s.S, s.TC)
    e.prove('the number of trees is kept', s.T == vals[3], s.S)
    for nm, g in s.inv(s.S): e.prove(nm, g, s.S)
    e.prove('no tree has a root', (lambda j: FA(j, IMP(AND(j >= 0, j < s.T), s.at(s.S, s.RO, j) == 0)))(qv()), s.S)
    e.prove('the lifetime is kept', s.lt == vals[0], s.S)
    e.prove('the base measure is kept', e.get(s.S, s.BM) == vals[1], s.S)
    e.prove('the discount factor is kept', e.get(s.S, s.DF) == vals[2], s.S)
    ck.cover(e, s.S)


def training(geo): return [('unbound: constructor', constructed), ('unbound: virtual functions', leaf_methods), ('unbound: extend_block', mondrian.extend(geo, U)), ('unbound: train_tree', mondrian.train_tree(geo, U)), ('unbound: train', mondrian.train(geo, U))]


PREDICT = [('unbound: virtual functions', leaf_methods), ('unbound: predict_tree', mondrian.predict_tree(U)), ('unbound: predict', mondrian.predict(False, U)), ('unbound: predict with scores', mondrian.predict(True, U))]
TASKS = {'C28': training(False), 'C29': training(True), 'C30': PREDICT}
for pid, ts in TASKS.items():
    mondrian.SPECS[pid]['tasks'] = list(mondrian.SPECS[pid]['tasks']) + ts
    mondrian.SPECS[pid]['programs'] = list(mondrian.SPECS[pid]['programs']) + [PROG]
