"""Contracts of src/chained_reservoir.hpp (C12, C13)."""
from lib import *

HDR = 'chained_reservoir.hpp'
PRE = '#include <cassert>\n#include <cstddef>\nstruct Fn{ static double random(); static void* malloc(unsigned long); };'
INST = 'template class ChainedReservoirSampling<int, 7, Fn>; inline void use_(){ ChainedReservoirSampling<int, 7, Fn> a; }'
PROG = dict(header=HDR, inst=INST, pre=PRE)
I = z3.IntSort()
TOP = ('ghost_top', ())


class H_:
    """The nodes are a heap of cells.  CELL(i,k) is the k-th cell of the chain of slot i (the head is k = 0), SLOT and POS its inverses,
    LEN(i) the number of cells, LIVE(i) how many of them are in use; the cells in use come first."""
    def __init__(s, ck, wf=True, sym=True):
        s.ck = ck
        s.prog = ck.prog(HDR, INST, pre=PRE)
        s.n = Int('sample_size')
        s.eng = e = ck.engine(s.prog, dict(sample_size=s.n))
        e.assume(AND(s.n >= 1, s.n < 2 ** 30))
        s.rec = s.prog.rec('ChainedReservoirSampling')
        s.node = s.prog.rec('node')
        e.heap['node'] = 'H'
        s.this = obj(e, s.rec)
        nty = T('rec', rec=s.node, name='node')
        for p, t in e.leaves(nty): e.leaf_ty[('H', ('[]',) + p)] = t
        sf = fld(s.prog, s.rec, 'sample', lambda t: t.k == 'arr' and t.to.k == 'rec', e)
        s.B = Int('head_base')
        e.embed[('this', (sf,))] = s.B
        h = lambda nm, pr, nth=0: ('H', ('[]', fld(s.prog, s.node, nm, pr, e, nth)))
        s.EL, s.TS, s.LK = h('element', lambda t: t.k == 'int'), h('timestamp', lambda t: t.k == 'int', 1), h('next', lambda t: t.k == 'ptr')
        s.NX = ('this', (fld(s.prog, s.rec, 'next', lambda t: t.k == 'arr' and t.to.k == 'int', e), '[]'))
        s.CT = ('this', (fld(s.prog, s.rec, 'counter', lambda t: t.k == 'int', e),))
        e.leaf_ty[TOP] = T('int', 64, True)
        s.S = State()
        s.draw = Draws(e, 0, 1)
        s.draw.start(s.S)
        e.models['random'] = s.draw
        e.models['malloc'] = s.malloc
        s.CELL, s.SLOT, s.POS = z3.Function('CELL', I, I, I), z3.Function('SLOT', I, I), z3.Function('POS', I, I)
        s.LEN, s.LIVE = z3.Function('LEN', I, I), z3.Function('LIVE', I, I)
        s.c0, s.top0 = e.get(s.S, s.CT), e.get(s.S, TOP)
        e.assume(AND(s.B >= 1, s.c0 >= 0, s.c0 < 2 ** 31))
        s.grow = None       # slot whose new cell a malloc provides
        if wf:
            for f in s.wf(s.S, s.LEN, s.LIVE, s.top0): e.assume(f[1])
            i, k = qv('i'), qv('k')
            e.assume(FA([i, k], IMP(AND(s.ins(i), k >= 0, k < s.LEN(i)), AND(s.CELL(i, k) >= 1, s.CELL(i, k) <= s.top0)), s.CELL(i, k)))
            a, h = Int('a_'), qv('h')
            law = lambda a: IMP(AND(a >= s.B, a < s.B + s.n), AND(s.SLOT(a) == a - s.B, s.POS(a) == 0, s.CELL(a - s.B, 0) == a))
            e.prove('lemma: a head is the first cell of its slot', IMP(s.LEN(a - s.B) >= 1, law(a)), State())
            e.assume(FA(h, law(h), s.SLOT(h)))
            e.assume(FA(h, law(h), s.POS(h)))
        e.inv_hooks.append(s.cands)
        e.measure_hooks.append(s.measures)
        s.wit = []

    def at(s, S, k, *ix): return SEL(s.eng.get(S, k), *ix)
    def ins(s, i): return AND(i >= 0, i < s.n)
    def isaddr(s, a, top): return AND(a >= 1, a <= top)

    def wf(s, S, LEN, LIVE, top, CELL=None):
        """the data structure invariant"""
        C = CELL or s.CELL
        c = s.eng.get(S, s.CT)
        i, k, a = qv('i'), qv('k'), qv('a')
        ci = C(i, k)
        return [('every slot has a head', FA(i, IMP(s.ins(i), AND(C(i, IV(0)) == s.B + i, LEN(i) >= 1)), LEN(i))),
                ('cells know their slot and position', FA([i, k], IMP(AND(s.ins(i), k >= 0, k < LEN(i)), AND(s.SLOT(ci) == i, s.POS(ci) == k)), ci)),
                ('every node is a cell of a chain', FA(a, IMP(s.isaddr(a, top), AND(s.ins(s.SLOT(a)), s.POS(a) >= 0, s.POS(a) < LEN(s.SLOT(a)), C(s.SLOT(a), s.POS(a)) == a)), s.SLOT(a))),
                ('the links follow the chain', FA(a, IMP(s.isaddr(a, top), s.at(S, s.LK, a) == z3.If(s.POS(a) + 1 < LEN(s.SLOT(a)), C(s.SLOT(a), s.POS(a) + 1), IV(0))), s.at(S, s.LK, a))),
                ('a slot is in use exactly when it was filled', FA(i, IMP(s.ins(i), z3.If(i < c, AND(LIVE(i) >= 1, LIVE(i) <= LEN(i)), AND(LIVE(i) == 0, LEN(i) == 1))), LIVE(i))),
                ('waiting successors have a timestamp, free cells have none', FA(a, IMP(AND(s.isaddr(a, top), OR(s.POS(a) >= 1, c <= s.SLOT(a))), (s.at(S, s.TS, a) != 0) == (s.POS(a) < LIVE(s.SLOT(a)))), s.at(S, s.TS, a))),
                ('an unfilled slot awaits nothing', FA(i, IMP(AND(s.ins(i), i >= c), s.at(S, s.NX, i) == 2 ** 32 - 2), s.at(S, s.NX, i))),
                ('heads are nodes', AND(s.B >= 1, s.B + s.n - 1 <= top))]

    def malloc(s, eng, args, st, node):
        a = z3.simplify(eng.get(st, TOP) + 1)
        st.mem[TOP] = a
        if s.grow is not None: eng.facts.append(IMP(AND(*st.pc), AND(a == s.CELL(s.grow, s.LEN(s.grow)), s.SLOT(a) == s.grow, s.POS(a) == s.LEN(s.grow))))
        return a

    # ---- loop invariants
    slot = None      # the slot a helper works on

    def ptrs(s, L, mod=True):
        out = []
        for d, nm, root, ty in L.names():
            k = (root, ())
            if ty.k == 'ptr' and isinstance(L.pre.mem.get(k), z3.ExprRef) and (k in L.mods) == mod: out.append((nm, k))
        return out

    def cands(s, L):
        e, out = s.eng, []
        pts = s.ptrs(L)
        slots = [('slot', s.slot)] if s.slot is not None else []
        for nm, k in L.int_keys(False): slots.append((nm, L.val(L.pre, k)))
        slots += scope_terms(L)
        for nm, k in pts:
            v = lambda S, k=k: e.get(S, k)
            for sn, t in slots:
                out.append((f'{nm} is a cell of {sn}', lambda S, v=v, t=t: AND(s.SLOT(v(S)) == t, s.POS(v(S)) >= 0, s.POS(v(S)) < s.LEN(t), v(S) == s.CELL(t, s.POS(v(S))))))
                out.append((f'{nm} is a cell of {sn} or the end', lambda S, v=v, t=t: OR(v(S) == 0, AND(s.ins(t), s.SLOT(v(S)) == t, s.POS(v(S)) >= 0, s.POS(v(S)) < s.LEN(t), v(S) == s.CELL(t, s.POS(v(S)))))))
                out.append((f'{nm} is not past the cells in use of {sn}', lambda S, v=v, t=t: s.POS(v(S)) <= s.LIVE(t)))
                if s.F is not None: out.append((f'{nm} is not past the first newer cell of {sn}', lambda S, v=v, t=t: s.POS(v(S)) <= s.F(t)))
                if s.F is not None: out.append((f'{nm} is not past the first newer cell of {sn}, or the end when there is none', lambda S, v=v, t=t: z3.If(v(S) == 0, s.F(t) == s.LEN(t), s.POS(v(S)) <= s.F(t))))
            out.append((f'{nm} only moves on', lambda S, v=v: s.POS(v(S)) >= s.POS(v(L.pre))))
            out.append((f'{nm} only moves on, or the end', lambda S, v=v: OR(v(S) == 0, AND(v(L.pre) != 0, s.POS(v(S)) >= s.POS(v(L.pre))))))
        for (a, ka), (b, kb) in itertools.permutations(pts, 2):
            d = lambda S, ka=ka, kb=kb: s.POS(e.get(S, ka)) - s.POS(e.get(S, kb))
            out.append((f'{a} keeps its distance from {b}', lambda S, d=d: d(S) == d(L.pre)))
        for nm, k in L.bool_keys(True): out.append((f'{nm} as before', lambda S, k=k: e.get(S, k) == e.get(L.pre, k)))
        for f in s.more: out += f(L, pts)
        return out

    F = None
    more = ()

    def measures(s, L):
        e = s.eng
        for nm, k in s.ptrs(L):
            yield lambda S, k=k: s.LEN(s.SLOT(e.get(S, k))) - s.POS(e.get(S, k))
            yield lambda S, k=k: z3.If(e.get(S, k) == 0, IV(-1), s.LEN(s.SLOT(e.get(S, k))) - s.POS(e.get(S, k)))

    # ---- contracts of the helpers
    def contracts(s, *names):
        e = s.eng
        for nm, np in (('push_on_chain', 3), ('clear_chain', 1), ('shift_chain', 2)):
            if nm in names: e.contracts[s.prog.func(s.rec, nm, np).id] = getattr(s, nm)()

    def addr(s, v):
        """address of a node given as a pointer or bound by reference"""
        if isinstance(v, z3.ExprRef): return v
        alts = v.alts
        r = None
        for g, l in alts:
            if l.root != 'H' or l.path != ('[]',): raise Unsupported('a node outside the heap')
            r = l.idx[0] if r is None else ITE(g, l.idx[0], r)
        return r

    def chain(s, S, i):
        """the chain of slot i is as the initial state says"""
        a = qv('a')
        return FA(a, IMP(AND(s.isaddr(a, s.top0), s.SLOT(a) == i), AND(s.at(S, s.LK, a) == z3.If(s.POS(a) + 1 < s.LEN(i), s.CELL(i, s.POS(a) + 1), IV(0)), IMP(s.POS(a) >= 1, (s.at(S, s.TS, a) != 0) == (s.POS(a) < s.LIVE(i))))), s.SLOT(a))

    def push_on_chain(s):
        def req(eng, this, vals, st):
            i = s.addr(vals[0]) - s.B
            return [('the node is a head', s.ins(i)), ('its chain is well formed', s.chain(st, i)), ('its slot is in use', AND(s.LIVE(i) >= 1, s.LIVE(i) <= s.LEN(i))), ('the timestamp is not zero', vals[2] != 0)]

        def eff(eng, this, vals, st):
            i = s.addr(vals[0]) - s.B
            el, ts, lk, top = [eng.get(st, k) for k in (s.EL, s.TS, s.LK, TOP)]
            p = s.CELL(i, s.LIVE(i))
            full = s.LIVE(i) == s.LEN(i)
            eng.facts.append(IMP(AND(*st.pc, full), AND(p == top + 1, s.SLOT(p) == i, s.POS(p) == s.LEN(i))))
            st.mem[s.EL], st.mem[s.TS] = z3.Store(el, p, vals[1]), z3.Store(ts, p, vals[2])
            st.mem[s.LK] = z3.If(full, z3.Store(z3.Store(lk, p, 0), s.CELL(i, s.LEN(i) - 1), p), lk)
            st.mem[TOP] = z3.If(full, top + 1, top)
        return Contract(requires=req, effect=eff)

    def clear_chain(s, rec=None):
        def req(eng, this, vals, st):
            a = s.addr(vals[0])
            i = s.SLOT(a)
            b = qv('b')
            ok = AND(s.isaddr(a, s.top0), FA(b, IMP(AND(s.isaddr(b, s.top0), s.SLOT(b) == i), s.at(st, s.LK, b) == z3.If(s.POS(b) + 1 < s.LEN(i), s.CELL(i, s.POS(b) + 1), IV(0))), s.SLOT(b)))
            r = [('the node starts the rest of a chain', OR(a == 0, ok))]
            if rec is not None: r.append(('the recursion gets closer to the end', OR(a == 0, AND(s.SLOT(a) == s.SLOT(rec), s.POS(a) > s.POS(rec)))))
            return r

        def eff(eng, this, vals, st):
            a = s.addr(vals[0])
            ts = eng.get(st, s.TS)
            new = eng.fresh('ts', ts.sort())
            b = qv('b')
            eng.facts.append(FA(b, SEL(new, b) == z3.If(AND(a != 0, s.isaddr(b, s.top0), s.SLOT(b) == s.SLOT(a), s.POS(b) >= s.POS(a)), IV(0), SEL(ts, b)), SEL(new, b)))
            st.mem[s.TS] = new
        return Contract(requires=req, effect=eff)

    def shifted(s, el, ts, el2, ts2, i, d, b):
        """cell b after the chain of slot i moved d cells towards its head"""
        src = s.CELL(i, s.POS(b) + d)
        inside = s.POS(b) + d < s.LEN(i)
        return AND(IMP(inside, SEL(el2, b) == SEL(el, src)), SEL(ts2, b) == z3.If(inside, SEL(ts, src), IV(0)))

    def shift_chain(s):
        def req(eng, this, vals, st):
            h, a = s.addr(vals[0]), s.addr(vals[1])
            i = s.SLOT(h)
            b = qv('b')
            return [('the first node is a head', AND(s.ins(i), h == s.B + i)), ('the second one is a later node of its chain', AND(s.isaddr(a, s.top0), s.SLOT(a) == i, s.POS(a) >= 1)),
                    ('its chain is linked', FA(b, IMP(AND(s.isaddr(b, s.top0), s.SLOT(b) == i), s.at(st, s.LK, b) == z3.If(s.POS(b) + 1 < s.LEN(i), s.CELL(i, s.POS(b) + 1), IV(0))), s.SLOT(b)))]

        def eff(eng, this, vals, st):
            h, a = s.addr(vals[0]), s.addr(vals[1])
            i, d = s.SLOT(h), s.POS(a)
            el, ts = eng.get(st, s.EL), eng.get(st, s.TS)
            el2, ts2 = eng.fresh('el', el.sort()), eng.fresh('ts', ts.sort())
            b = qv('b')
            g = AND(s.isaddr(b, s.top0), s.SLOT(b) == i)
            eng.facts.append(FA(b, IMP(NOT(g), SEL(el2, b) == SEL(el, b)), SEL(el2, b)))
            eng.facts.append(FA(b, IMP(NOT(g), SEL(ts2, b) == SEL(ts, b)), SEL(ts2, b)))
            eng.facts.append(FA(b, IMP(g, s.shifted(el, ts, el2, ts2, i, d, b)), SEL(el2, b)))
            eng.facts.append(FA(b, IMP(g, s.shifted(el, ts, el2, ts2, i, d, b)), SEL(ts2, b)))
            st.mem[s.EL], st.mem[s.TS] = el2, ts2
        return Contract(requires=req, effect=eff)


def node_ref(s, a):
    return LVs([(Tt, LV('H', ('[]',), [a], T('rec', rec=s.node, name='node')))])


def pass_node(s, p, a):
    """a node as the parameter wants it"""
    return node_ref(s, a) if '&' in p['type']['qualType'] else a


def same_arrays(s, S0, S, *keys):
    for k in keys: s.eng.prove(f'{k[1][-1] if k[1][-1] != "[]" else k[1][0]} unchanged', unchanged(s.eng, S0, S, k), S)


def push(ck):
    s = H_(ck)
    e = s.eng
    f = s.prog.func(s.rec, 'push_on_chain', 3)
    ck.under(f)
    i, x, t = Int('slot'), Int('element'), Int('timestamp')
    e.assume(AND(s.ins(i), i < s.c0, x >= -2 ** 31, x < 2 ** 31, t >= 1, t < 2 ** 32))
    s.slot, s.grow = i, i
    S0 = s.S.copy()
    e.invoke(f, s.this, [pass_node(s, f.params[0], s.B + i), x, t], s.S)
    b = qv('b')
    p = s.CELL(i, s.LIVE(i))
    full = s.LIVE(i) == s.LEN(i)
    top = e.get(s.S, TOP)
    e.prove('a node is allocated exactly when the chain has no free cell', top == z3.If(full, s.top0 + 1, s.top0), s.S)
    e.prove('the element is after the waiting successors', AND(s.at(s.S, s.EL, p) == x, s.at(s.S, s.TS, p) == t), s.S)
    e.prove('a new node ends the chain', IMP(full, AND(p == s.top0 + 1, s.at(s.S, s.LK, p) == 0, s.at(s.S, s.LK, s.CELL(i, s.LEN(i) - 1)) == p)), s.S)
    for k in (s.EL, s.TS): e.prove(f'every other {k[1][-1]} is unchanged', FA(b, IMP(b != p, s.at(s.S, k, b) == s.at(S0, k, b)), s.at(s.S, k, b)), s.S)
    e.prove('every other link is unchanged', FA(b, IMP(OR(NOT(full), AND(b != p, b != s.CELL(i, s.LEN(i) - 1))), s.at(s.S, s.LK, b) == s.at(S0, s.LK, b)), s.at(s.S, s.LK, b)), s.S)
    frame(e, S0, s.S, s.this, skip=[(k[1][0],) for k in e.embed])
    ck.cover(e, s.S)


def clear(ck):
    s = H_(ck)
    e = s.eng
    f = s.prog.func(s.rec, 'clear_chain', 1)
    ck.under(f)
    a = Int('start')
    e.assume(OR(a == 0, s.isaddr(a, s.top0)))
    s.slot = s.SLOT(a)
    e.contracts[f.id] = s.clear_chain(rec=a)
    S0 = s.S.copy()
    b = qv('b')

    def more(L, pts):
        out = []
        for nm, k in pts:
            v = lambda S, k=k: e.get(S, k)
            out.append((f'cleared up to {nm}', lambda S, v=v: FA(b, s.at(S, s.TS, b) == z3.If(AND(a != 0, s.isaddr(b, s.top0), s.SLOT(b) == s.SLOT(a), s.POS(b) >= s.POS(a), OR(v(S) == 0, s.POS(b) < s.POS(v(S)))), IV(0), s.at(S0, s.TS, b)), s.at(S, s.TS, b))))
        return out
    s.more = (more,)
    e.invoke(f, s.this, [a], s.S)
    e.prove('the cells from the node on are free', FA(b, s.at(s.S, s.TS, b) == z3.If(AND(a != 0, s.isaddr(b, s.top0), s.SLOT(b) == s.SLOT(a), s.POS(b) >= s.POS(a)), IV(0), s.at(S0, s.TS, b)), s.at(s.S, s.TS, b)), s.S)
    same_arrays(s, S0, s.S, s.EL, s.LK)
    frame(e, S0, s.S, s.this, skip=[(k[1][0],) for k in e.embed])
    ck.cover(e, s.S)


def shift(ck):
    s = H_(ck)
    e = s.eng
    f = s.prog.func(s.rec, 'shift_chain', 2)
    ck.under(f)
    i, d = Int('slot'), Int('distance')
    e.assume(AND(s.ins(i), d >= 1, d < s.LEN(i)))
    s.slot = i
    S0 = s.S.copy()
    el, ts = e.get(S0, s.EL), e.get(S0, s.TS)
    b = qv('b')
    mine = lambda b: AND(s.isaddr(b, s.top0), s.SLOT(b) == i)

    def more(L, pts):
        out = []
        for nm, k in pts:
            v = lambda S, k=k: e.get(S, k)
            for rel, fn in (('<', lambda x, y: x < y), ('<=', lambda x, y: x <= y)):
                out.append((f'cells {rel} {nm} are shifted', lambda S, v=v, fn=fn: FA(b, IMP(AND(mine(b), fn(s.POS(b), s.POS(v(S)))), s.shifted(el, ts, e.get(S, s.EL), e.get(S, s.TS), i, d, b)), s.SLOT(b))))
                for kk in (s.EL, s.TS):
                    out.append((f'cells not {rel} {nm} keep their {kk[1][-1]}', lambda S, v=v, fn=fn, kk=kk: FA(b, IMP(AND(mine(b), NOT(fn(s.POS(b), s.POS(v(S))))), s.at(S, kk, b) == s.at(S0, kk, b)), s.SLOT(b))))
        for kk in (s.EL, s.TS): out.append((f'{kk[1][-1]} of other nodes', lambda S, kk=kk: FA(b, IMP(NOT(mine(b)), s.at(S, kk, b) == s.at(S0, kk, b)), s.at(S, kk, b))))
        for nm, k in pts: out.append((f'{nm} is past the cells moved', lambda S, k=k: s.POS(e.get(S, k)) >= s.LEN(i) - d - 1))
        out.append(('cells moved', lambda S: FA(b, IMP(AND(mine(b), s.POS(b) + d < s.LEN(i)), AND(s.at(S, s.EL, b) == SEL(el, s.CELL(i, s.POS(b) + d)), s.at(S, s.TS, b) == SEL(ts, s.CELL(i, s.POS(b) + d)))), s.SLOT(b))))
        return out
    s.more = (more,)
    e.invoke(f, s.this, [pass_node(s, f.params[0], s.B + i), pass_node(s, f.params[1], s.CELL(i, d))], s.S)
    e.prove('the chain moves towards the head and the rest is free', FA(b, IMP(mine(b), s.shifted(el, ts, e.get(s.S, s.EL), e.get(s.S, s.TS), i, d, b)), s.SLOT(b)), s.S)
    for k in (s.EL, s.TS): e.prove(f'every other {k[1][-1]} is unchanged', FA(b, IMP(NOT(mine(b)), s.at(s.S, k, b) == s.at(S0, k, b)), s.at(s.S, k, b)), s.S)
    same_arrays(s, S0, s.S, s.LK)
    frame(e, S0, s.S, s.this, skip=[(k[1][0],) for k in e.embed])
    ck.cover(e, s.S)


def new(ck):
    s = H_(ck, wf=False)
    e = s.eng
    S = State()
    b, i = qv('b'), qv('i')
    head = lambda a: AND(a >= s.B, a < s.B + s.n)
    # the only nodes are the heads
    e.assume(e.get(S, TOP) == s.B + s.n - 1)
    e.assume(s.B == 1)
    e.assume(FA(b, IMP(head(b), AND(s.SLOT(b) == b - s.B, s.POS(b) == 0)), s.SLOT(b)))
    e.assume(FA([b, i], IMP(i == 0, s.CELL(b, i) == s.B + b), s.CELL(b, i)))
    e.assume(FA(b, AND(s.LEN(b) == 1), s.LEN(b)))
    e.assume(FA(b, AND(s.LIVE(b) == 0), s.LIVE(b)))

    def more(L, pts):
        out = []
        for k in (s.TS, s.LK): out += prefix(L, f'{k[1][-1]} is zero', lambda S, j, k=k: s.at(S, k, s.B + j) == 0, pats=lambda S, j, k=k: [s.at(S, k, s.B + j)])
        for k in (s.TS, s.LK):
            for nm, ik in L.int_keys(True):
                out.append((f'{k[1][-1]} of the heads before {nm}', lambda S, k=k, ik=ik: FA(b, IMP(AND(b >= s.B, b < s.B + L.val(S, ik)), s.at(S, k, b) == 0), s.at(S, k, b))))
        out += prefix(L, 'nothing is awaited', lambda S, j: s.at(S, s.NX, j) == 2 ** 32 - 2, pats=lambda S, j: [s.at(S, s.NX, j)])
        return out
    s.more = (more,)
    construct(e, s.rec, s.this, [], S)
    e.prove('nothing was seen', e.get(S, s.CT) == 0, S)
    for nm, g in s.wf(S, s.LEN, s.LIVE, e.get(S, TOP)): e.prove(nm, g, S)
    ck.cover(e, S)


def add(ck):
    s = H_(ck)
    e = s.eng
    f = s.prog.func(s.rec, 'add', 2)
    ck.under(f)
    s.contracts('push_on_chain', 'clear_chain')
    x, t = Int('element'), Int('timestamp')
    e.assume(AND(x >= -2 ** 31, x < 2 ** 31, t >= 0, t < 2 ** 32, IMP(s.c0 >= 1, t >= 1)))
    S0 = s.S.copy()
    c = s.c0
    fill = c < s.n
    u1 = s.draw.U(0)
    accept = AND(NOT(fill), u1 * z3.ToReal(c + 1) < z3.ToReal(s.n))
    y, z = z3.Reals('y z')
    nx0 = lambda j: s.at(S0, s.NX, j)
    await_ = lambda j: AND(j < c, nx0(j) == c)
    b, i = qv('b'), qv('i')
    W = {}

    def stores(a, out):
        """indices an array term was written at"""
        todo, seen = [a], set()
        while todo:
            a = todo.pop()
            if a.get_id() in seen: continue
            seen.add(a.get_id())
            if z3.is_store(a):
                out.append(a.arg(1))
                todo.append(a.arg(0))
            elif z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE: todo += [a.arg(1), a.arg(2)]

    def res(S, j_of):
        """state after the slots with j_of were looked at for awaited successors, relative to the pre-loop state P"""
    def more(L, pts):
        if L.fn != 'add' and not any(fr.func.name == 'add' for fr in e.frames): return []
        P = L.pre
        if 'P' not in W and not e.mods_only:
            out = []
            stores(e.get(P, s.EL), out)
            W['P'], W['idx'] = P, [o - s.B for o in out]
        out = []
        for nm, ik in L.int_keys(True):
            v = lambda S, ik=ik: L.val(S, ik)
            for r in s.result(S0, P, x, t, await_): out.append((f'{r[0]} before {nm}', lambda S, v=v, r=r: r[1](S, lambda j: j < v(S), v(S))))
        return out
    s.more = (more,)
    e.invoke(f, s.this, [x, t], s.S)
    S = s.S
    e.prove('one more element was seen', e.get(S, s.CT) == c + 1, S)
    if 'P' not in W: raise Unsupported('no loop over the slots')
    # acceptance
    idx = W['idx']
    hit = lambda w, j: j == w
    heads = []
    for n, w in enumerate(idx):
        other = lambda b: AND(s.isaddr(b, s.top0), s.SLOT(b) != w)
        g = AND(s.ins(w), s.at(S, s.EL, s.B + w) == x, s.at(S, s.TS, s.B + w) == t)
        heads.append((w, g))
    e.prove('until it is full the reservoir stores the elements in order', IMP(fill, AND(s.at(S, s.EL, s.B + c) == x, s.at(S, s.TS, s.B + c) == t)), S)
    # who is the new head
    V = Int('head')
    pick = OR(*[AND(V == w, g) for w, g in heads])
    e.prove('an accepted element is the head of a valid slot', IMP(accept, OR(*[g for w, g in heads])), S)
    S2 = S.copy()
    newhead = lambda j: OR(AND(fill, j == c), AND(accept, j == V))
    e2 = lambda j, p: AND(await_(j), NOT(newhead(j)), p == s.LIVE(j))
    LEN2 = lambda j: z3.If(AND(await_(j), NOT(newhead(j)), s.LIVE(j) == s.LEN(j)), s.LEN(j) + 1, s.LEN(j))
    LIVE2 = lambda j: z3.If(newhead(j), IV(1), z3.If(await_(j), s.LIVE(j) + 1, s.LIVE(j)))
    top = e.get(S, TOP)
    el, ts = lambda b: s.at(S, s.EL, b), lambda b: s.at(S, s.TS, b)
    sl, po = s.SLOT(b), s.POS(b)
    # V is one of the slots written before the loop whose statement below holds
    goals = [('other heads and successors are unchanged', FA(b, IMP(AND(s.isaddr(b, s.top0), NOT(newhead(sl)), NOT(e2(sl, po))), AND(el(b) == s.at(S0, s.EL, b), ts(b) == s.at(S0, s.TS, b))), s.SLOT(b))),
             ('an awaited successor is after the waiting ones', FA(i, IMP(AND(s.ins(i), await_(i), NOT(newhead(i))), AND(el(s.CELL(i, s.LIVE(i))) == x, ts(s.CELL(i, s.LIVE(i))) == t)), s.LIVE(i))),
             ('the waiting successors of the replaced head are discarded', FA(b, IMP(AND(s.isaddr(b, s.top0), newhead(sl), po >= 1), ts(b) == 0), s.SLOT(b))),
             ('the new head is the element', FA(i, IMP(AND(s.ins(i), newhead(i)), AND(el(s.B + i) == x, ts(s.B + i) == t)), s.LIVE(i))),
             ('a slot awaits a later element exactly when it was looked at', FA(i, IMP(s.ins(i), z3.If(OR(await_(i), newhead(i)), AND(s.at(S, s.NX, i) > c, s.at(S, s.NX, i) <= c + s.n), s.at(S, s.NX, i) == nx0(i))), s.at(S, s.NX, i)))]
    hyp = lambda g: IMP(IMP(accept, OR(*[V == w for w in idx])), g)
    # one slot: the formula of V is the last one written on the accepting path
    vs = [w for w in idx if not same(z3.simplify(w), z3.simplify(c))]
    if len(vs) != 1: raise Unsupported('the slot of an accepted element is not unique')
    e.assume(V == vs[0])
    e.prove('the slot of an accepted element is valid', IMP(accept, s.ins(V)), S)
    for nm, g in goals: e.prove(nm, g, S)
    for nm, g in s.wf(S, LEN2, LIVE2, top):
        if nm != 'the links follow the chain': e.prove('invariant: ' + nm, g, S)
    grows = lambda j: AND(await_(j), NOT(newhead(j)), s.LIVE(j) == s.LEN(j))
    old, lk = s.isaddr(b, s.top0), s.at(S, s.LK, b)
    for nm, h, v in (('in a chain that does not grow', AND(old, NOT(grows(sl))), z3.If(po + 1 < s.LEN(sl), s.CELL(sl, po + 1), IV(0))),
                     ('inside a chain that grows', AND(old, grows(sl), po + 1 < s.LEN(sl)), s.CELL(sl, po + 1)),
                     ('at the end of a chain that grows', AND(old, grows(sl), po + 1 == s.LEN(sl)), s.CELL(sl, po + 1)),
                     ('of a new node', AND(b > s.top0, b <= top), IV(0))):
        e.prove(f'invariant: the links follow the chain {nm}', FA(b, IMP(h, lk == v), lk), S)
    e.prove('invariant: a new node is the last one of its chain', FA(b, IMP(AND(b > s.top0, b <= top), AND(grows(sl), po == s.LEN(sl))), sl), S)
    ck.cover(e, S)


def result(s, S0, P, x, t, await_):
    """what the loop over the slots does to the slots looked at; P is the state before the loop"""
    e, c = s.eng, s.c0
    b, j = qv('b'), qv('j')
    aw = lambda j: s.at(P, s.NX, j) == c
    p0 = e.get(P, TOP)
    app = lambda b, done: AND(done(s.SLOT(b)), aw(s.SLOT(b)), s.POS(b) == s.LIVE(s.SLOT(b)))
    fields = []
    for k, v in ((s.EL, x), (s.TS, t)):
        fields.append((k[1][-1], lambda S, done, m, k=k, v=v: FA(b, IMP(s.isaddr(b, s.top0), s.at(S, k, b) == z3.If(app(b, done), v, s.at(P, k, b))), s.at(S, k, b))))
    fields.append(('links', lambda S, done, m: FA(b, IMP(s.isaddr(b, s.top0), s.at(S, s.LK, b) == z3.If(AND(done(s.SLOT(b)), aw(s.SLOT(b)), s.LIVE(s.SLOT(b)) == s.LEN(s.SLOT(b)), s.POS(b) == s.LEN(s.SLOT(b)) - 1), s.CELL(s.SLOT(b), s.LEN(s.SLOT(b))), s.at(P, s.LK, b))), s.at(S, s.LK, b))))
    nw = lambda j: s.CELL(j, s.LEN(j))
    fields.append(('new nodes', lambda S, done, m: FA(j, IMP(AND(s.ins(j), done(j), aw(j), s.LIVE(j) == s.LEN(j)), AND(nw(j) > s.top0, nw(j) <= e.get(S, TOP), s.SLOT(nw(j)) == j, s.POS(nw(j)) == s.LEN(j), s.at(S, s.EL, nw(j)) == x, s.at(S, s.TS, nw(j)) == t, s.at(S, s.LK, nw(j)) == 0)), s.LEN(j))))
    fields.append(('every new node', lambda S, done, m: FA(b, IMP(AND(b > s.top0, b <= e.get(S, TOP)), AND(s.ins(s.SLOT(b)), done(s.SLOT(b)), aw(s.SLOT(b)), s.LIVE(s.SLOT(b)) == s.LEN(s.SLOT(b)), b == nw(s.SLOT(b)), s.POS(b) == s.LEN(s.SLOT(b)))), s.SLOT(b))))
    fields.append(('node count', lambda S, done, m: e.get(S, TOP) >= s.top0))
    fields.append(('awaited', lambda S, done, m: FA(j, IMP(s.ins(j), z3.If(AND(done(j), aw(j)), AND(s.at(S, s.NX, j) > c, s.at(S, s.NX, j) <= c + s.n), s.at(S, s.NX, j) == s.at(P, s.NX, j))), s.at(S, s.NX, j))))
    return fields
H_.result = result


def obsolete(ck):
    s = H_(ck)
    e = s.eng
    f = s.prog.func(s.rec, 'obsolete', 1)
    ck.under(f)
    s.contracts('shift_chain')
    t = Int('timestamp')
    e.assume(AND(t >= 0, t < 2 ** 32))
    S0 = s.S.copy()
    F = s.F = z3.Function('FIRST', I, I)     # position of the first cell newer than t, LEN when there is none
    i, k, b = qv('i'), qv('k'), qv('b')
    ts0 = lambda a: s.at(S0, s.TS, a)
    e.assume(FA(i, IMP(s.ins(i), AND(F(i) >= 0, F(i) <= s.LEN(i), IMP(F(i) < s.LEN(i), ts0(s.CELL(i, F(i))) > t))), F(i)))
    e.assume(FA([i, k], IMP(AND(s.ins(i), k >= 0, k < F(i)), ts0(s.CELL(i, k)) <= t), s.CELL(i, k)))
    el, ts = e.get(S0, s.EL), e.get(S0, s.TS)
    moved = lambda S, b: z3.If(F(s.SLOT(b)) < s.LEN(s.SLOT(b)), s.shifted(el, ts, e.get(S, s.EL), e.get(S, s.TS), s.SLOT(b), F(s.SLOT(b)), b), AND(s.at(S, s.EL, b) == SEL(el, b), s.at(S, s.TS, b) == SEL(ts, b)))
    keep = lambda S, b: AND(s.at(S, s.EL, b) == SEL(el, b), s.at(S, s.TS, b) == SEL(ts, b))

    def more(L, pts):
        out = []
        for nm, ik in L.int_keys(True):
            v = lambda S, ik=ik: L.val(S, ik)
            out.append((f'slots before {nm} are done', lambda S, v=v: FA(b, IMP(AND(s.isaddr(b, s.top0), s.SLOT(b) < v(S)), moved(S, b)), s.SLOT(b))))
            out.append((f'slots from {nm} on are not', lambda S, v=v: FA(b, IMP(AND(s.isaddr(b, s.top0), s.SLOT(b) >= v(S)), keep(S, b)), s.SLOT(b))))
        return out
    s.more = (more,)
    e.invoke(f, s.this, [t], s.S)
    S = s.S
    e.prove('the chain starts with its first newer element and the rest follows', FA(b, IMP(s.isaddr(b, s.top0), moved(S, b)), s.SLOT(b)), S)
    e.prove('the head is the first newer element', FA(i, IMP(AND(s.ins(i), F(i) < s.LEN(i)), AND(s.at(S, s.EL, s.B + i) == SEL(el, s.CELL(i, F(i))), s.at(S, s.TS, s.B + i) > t)), F(i)), S)
    e.prove('a slot with nothing newer keeps its head', FA(i, IMP(AND(s.ins(i), F(i) == s.LEN(i)), AND(s.at(S, s.EL, s.B + i) == SEL(el, s.B + i), s.at(S, s.TS, s.B + i) == SEL(ts, s.B + i))), F(i)), S)
    same_arrays(s, S0, S, s.LK)
    frame(e, S0, S, s.this, skip=[(k[1][0],) for k in e.embed])
    LIVE2 = lambda j: z3.If(F(j) < s.LEN(j), s.LIVE(j) - F(j), s.LIVE(j))
    for nm, g in s.wf(S, s.LEN, LIVE2, s.top0): e.prove('invariant: ' + nm, g, S)
    ck.cover(e, S)


def access(ck):
    s = H_(ck)
    e = s.eng
    for f in [m for m in s.rec.methods if m.name == 'operator[]' and m.body is not None]:
        ck.under(f)
        i = Int('index')
        e.assume(AND(s.ins(i)))
        S = s.S.copy()
        S0 = S.copy()
        r = e.invoke(f, s.this, [i], S)
        v = e.read(r.alts, S) if isinstance(r, (LVs, Ptr)) else r
        e.prove('reading gives the head', v == s.at(S0, s.EL, s.B + i), S)
        same_arrays(s, S0, S, s.EL, s.TS, s.LK)
    ck.cover(e, s.S)


A = ['timestamps are positive except possibly the first one (a zero timestamp marks a free node)', 'malloc succeeds and gives fresh memory', 'fewer than 2^31 elements are added', 'the random function gives values in [0,1]']
base = dict(headers=[HDR], native='chained.cpp', programs=[PROG], assumptions=A)
SPECS = {
    'C12': dict(base, tasks=[('constructor', new), ('push_on_chain', push), ('clear_chain', clear), ('add', add), ('operator[]', access)]),
    'C13': dict(base, tasks=[('constructor', new), ('push_on_chain', push), ('clear_chain', clear), ('add', add), ('shift_chain', shift), ('obsolete', obsolete), ('operator[]', access)]),
}
