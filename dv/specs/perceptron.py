"""Contracts of src/perceptron.hpp (C21, C22, C23)."""
from lib import *

HDR = 'perceptron.hpp'
PRE = 'struct Fn{ static double random(); static double activation(double); static double derivative(double); };'
INST = 'template class MultiLayerPerceptron<4, 1000, Fn>; inline void use_(int* p){ MultiLayerPerceptron<4, 1000, Fn> a(p); }'
PROG = dict(header=HDR, inst=INST, pre=PRE)
R = z3.RealSort()
I = z3.IntSort()


class P:
    def __init__(s, ck, lemmas=False):
        s.ck = ck
        s.prog = ck.prog(HDR, INST, pre=PRE)
        s.LC, s.MS = Int('layer_count'), Int('max_size')
        s.eng = e = ck.engine(s.prog, dict(layer_count=s.LC, max_size=s.MS))
        e.assume(AND(s.LC >= 2, s.LC < 2 ** 30, s.MS >= 8, s.MS < 2 ** 30))
        s.mul = Mul(e)
        s.rm = RMul(e)
        s.rec = s.prog.rec('MultiLayerPerceptron')
        s.this = obj(e, s.rec)
        arr = lambda k: (lambda t: t.k == 'arr' and t.to.k == k)
        s.wk = ('this', (fld(s.prog, s.rec, 'weights', arr('float'), e), '[]'))
        s.ok = ('this', (fld(s.prog, s.rec, 'neuron_output', arr('float'), e, 1), '[]'))
        s.lk = ('this', (fld(s.prog, s.rec, 'layer_size', arr('int'), e), '[]'))
        s.rk = ('this', (fld(s.prog, s.rec, 'learning_rate', lambda t: t.k == 'float', e),))
        s.ACT, s.DER = z3.Function('activation', R, R), z3.Function('derivative', R, R)
        e.models['activation'] = lambda eng, a, st, n: s.ACT(eng.convert(eng.ev(a[0], st), None, FLT))
        e.models['derivative'] = lambda eng, a, st, n: s.DER(eng.convert(eng.ev(a[0], st), None, FLT))
        s.draw = Draws(e, 0, 1)
        s.draw.strict = False
        e.models['random'] = s.draw
        s.S = State()
        s.draw.start(s.S)
        s.TC = next(s.prog.ty(f, e, f).dim for f in s.rec.all_fields(s.prog) if f['name'] == s.wk[1][0])
        if s.TC is None: raise Unsupported('size of the weight array')

    def shape(s, S0):
        """layer sizes of S0 are fixed from here on: bases of layers in the two arrays"""
        e = s.eng
        s.ls = e.get(S0, s.lk)
        s.N = lambda l: z3.Select(s.ls, l)
        i, a, b, q = qv('i'), qv('a'), qv('b'), qv('q')
        e.assume(FA(i, IMP(AND(i >= 0, i < s.LC), AND(s.N(i) >= 1, s.N(i) < 2 ** 30)), s.N(i)))
        s.OB = Sum(e, 'OB', lambda k: s.N(k), sort=I)
        s.WB = Sum(e, 'WB', lambda k: s.mul(s.N(k - 1) + 1, s.N(k)), sort=I, lo=1)
        e.assume(AND(s.OB(s.LC) <= s.TC, s.WB(s.LC) <= s.TC, s.TC < 2 ** 31 - 1))
        # lemma: bases grow with the layer (induction on the layer)
        n = Int('n_')
        S = State()
        for F, lo in ((s.OB, 0), (s.WB, 1)):
            e.prove(f'lemma: {F.name} grows', IMP(AND(n >= lo, n < s.LC), F(n) <= F(n + 1)), S)
            e.prove(f'lemma: {F.name} starts at zero', F(lo) == 0, S)
            e.prove(f'lemma: a layer ends where the next begins in {F.name}', IMP(AND(n >= lo, n < s.LC), F(n + 1) == F(n) + (s.N(n) if F is s.OB else s.mul(s.N(n - 1) + 1, s.N(n)))), S)
            e.assume(FA([a, b], IMP(AND(0 <= a, a <= b, b <= s.LC), AND(F(a) >= 0, F(a) <= F(b))), z3.MultiPattern(F(a), F(b))))
            e.assume(FA(a, IMP(AND(0 <= a, a <= s.LC), F.g(a) >= 0), F.g(a)))      # F.g(a) = F(a)
        l = qv('l')
        e.assume(FA(l, IMP(AND(l >= 0, l < s.LC), s.OB(l) + s.N(l) <= s.OB(s.LC)), s.OB(l)))
        up = lambda l: s.mul(s.N(l - 1) + 1, s.N(l))
        e.assume(FA(l, IMP(AND(l >= 1, l < s.LC), AND(up(l) >= 1, s.WB(l) + up(l) <= s.WB(s.LC))), s.WB(l)))
        # lemma: every position belongs to a layer, neuron (and input); induction on the layer
        s.LO, s.NO = z3.Function('layer_of_output', I, I), z3.Function('neuron_of_output', I, I)
        s.LW, s.NW, s.IW = z3.Function('layer_of_weight', I, I), z3.Function('neuron_of_weight', I, I), z3.Function('input_of_weight', I, I)
        e.prove('lemma: outputs decompose', IMP(AND(n >= 0, n < s.LC, q >= s.OB(n), q < s.OB(n + 1)), AND(q - s.OB(n) >= 0, q - s.OB(n) < s.N(n))), S)
        t, w, st = Int('t_'), Int('w_'), Int('st_')
        e.prove('lemma: weights decompose', IMP(AND(t >= 0, st >= 1, w >= 1, t < w * st), AND(t / st >= 0, t / st < w, t % st >= 0, t % st < st, t == (t / st) * st + t % st)), S)
        l, m = s.LO(q), s.NO(q)
        e.assume(FA(q, IMP(AND(q >= 0, q < s.OB(s.LC)), AND(l >= 0, l < s.LC, m >= 0, m < s.N(l), q == s.OB(l) + m, s.OB(l + 1) == s.OB(l) + s.N(l))), s.LO(q)))
        # lemma: the layer of a position is the one whose range holds it (bases grow)
        pq, pl = Int('q_'), Int('l_')

        def order(F, LF, size, lo):
            def body(q, l):
                return IMP(AND(q >= 0, q < F(s.LC), l >= lo, l <= s.LC),
                           AND(IMP(F(l) <= q, l <= LF(q)), IMP(q < F(l), LF(q) < l), IMP(AND(l < s.LC, q < F(l) + size(l)), LF(q) <= l)))
            e.prove(f'lemma: order of layers in {F.name}', IMP(AND(F(LF(pq) + 1) == F(LF(pq)) + size(LF(pq)), F(pl + 1) == F(pl + 1), IMP(pl < s.LC, F(pl + 1) == F(pl) + size(pl))), body(pq, pl)), S)
            e.assume(FA([q, l], body(q, l), z3.MultiPattern(LF(q), F(l))))
        l = qv('l')
        order(s.OB, s.LO, s.N, 0)
        l, m, c = s.LW(q), s.NW(q), s.IW(q)
        e.assume(FA(q, IMP(AND(q >= 0, q < s.WB(s.LC)), AND(l >= 1, l < s.LC, m >= 0, m < s.N(l), c >= 0, c <= s.N(l - 1), q == s.WIDX(l, m, c),
                                                              s.WB(l + 1) == s.WB(l) + s.mul(s.N(l - 1) + 1, s.N(l)))), s.LW(q)))

        l = qv('l')
        order(s.WB, s.LW, up, 1)
        # lemma: the neuron of a weight is the one whose row holds it
        M = s.mul.M

        def row(q, t, m):
            r, st = q - s.WB(s.LW(q)), M(t, m) + m
            return IMP(AND(q >= 0, q < s.WB(s.LC), m >= 0, t == s.N(s.LW(q) - 1)), AND(IMP(st <= r, m <= s.NW(q)), IMP(r < st, s.NW(q) < m), IMP(r <= st + t, s.NW(q) <= m)))
        t, m = qv('t'), qv('m')
        pt, pm = Int('t_'), Int('m_')
        e.prove('lemma: order of the neurons of a layer', IMP(AND(M(pt, pm) == M(pm, pt), M(pt, s.NW(pq)) == M(s.NW(pq), pt)), row(pq, pt, pm)), S)
        e.assume(FA([q, t, m], row(q, t, m), z3.MultiPattern(s.NW(q), M(t, m))))
        e.prove('lemma: the second layer starts after the inputs', s.OB(1) == s.N(0), S)
        e.assume(s.OB(1) == s.N(0))

    def WIDX(s, l, m, c): return s.WB(l) + s.mul(m, s.N(l - 1) + 1) + c

    def W(s, S, q): return z3.Select(s.eng.get(S, s.wk), q)
    def O(s, S, q): return z3.Select(s.eng.get(S, s.ok), q)

    def base_cands(s, L):
        out = []
        allk = L.int_keys(None)
        for n1, k1 in L.int_keys(True):
            for n2, k2 in allk:
                if k1 == k2: continue
                for c in (-1, 0, 1, 2):
                    for F in (s.OB, s.WB):
                        out.append((f'{n1}=={F.name}({n2}+{c})', lambda S, k1=k1, k2=k2, c=c, F=F: L.val(S, k1) == F(L.val(S, k2) + c)))
            for F in (s.OB, s.WB):
                out.append((f'{n1}>={F.name} 0', lambda S, k1=k1: L.val(S, k1) >= 0))
        return out


def fuel(e, name):
    """a recursive spec function, unfolded once where it occurs: F (unfolds) equals F0 (does not)"""
    F, F0 = z3.Function(name, I, R), z3.Function(name + '0', I, R)
    q = qv('q')
    e.assume(FA(q, F(q) == F0(q), F(q)))
    return F, F0


def forward(ck):
    s = P(ck)
    e = s.eng
    s.shape(s.S)
    f = s.prog.func(s.rec, 'feed_forward')
    ck.under(f)
    inp, out = array(e, 'input', FLT, s.N(0)), array(e, 'output', FLT, s.N(s.LC - 1))
    S0 = s.S.copy()
    X = e.get(S0, ('input', ('[]',)))
    W0 = e.get(S0, s.wk)
    # the network function, by position: NET(OB(l) + n)
    NET, NET0 = fuel(e, 'NET')
    T_ = Sum(e, 'T', lambda l, n, k: s.rm(z3.Select(W0, s.WIDX(l, n, k)), NET0(s.OB(l - 1) + k)), 2)
    q = qv('q')
    l, n = s.LO(q), s.NO(q)
    net = lambda l, n: s.ACT(T_(l, n, s.N(l - 1)) + z3.Select(W0, s.WIDX(l, n, s.N(l - 1))))
    e.assume(FA(q, IMP(AND(q >= 0, q < s.OB(s.LC)), NET(q) == z3.If(l == 0, z3.Select(X, n), net(l, n))), NET(q)))

    def cands(L):
        outc = s.base_cands(L)
        pre = lambda hi: (lambda S: (lambda j: FA(j, IMP(AND(j >= 0, j < hi(S)), s.O(S, j) == NET(j)), s.O(S, j)))(qv()))
        for n1, k1 in L.int_keys(None):
            v1 = lambda S, k1=k1: L.val(S, k1)
            outc.append((f'outputs below {n1}', pre(lambda S, v1=v1: v1(S))))
            for c in (0, 1): outc.append((f'outputs of layers below {n1}+{c}', pre(lambda S, v1=v1, c=c: s.OB(v1(S) + c))))
            for n2, k2 in L.int_keys(True):
                if k1 != k2:
                    outc.append((f'outputs below OB({n1})+{n2}', pre(lambda S, v1=v1, k2=k2: s.OB(v1(S)) + L.val(S, k2))))
        outc += prefix(L, 'output copied', lambda S, j: z3.Select(e.get(S, ('output', ('[]',))), j) == NET(s.OB(s.LC - 1) + j), hi=s.N(s.LC - 1))
        outc += sum_cands(L, T_)
        return outc
    e.inv_hooks.append(cands)
    e.invoke(f, s.this, [inp, out], s.S)
    j, ll, nn = qv('j'), Int('l_any'), Int('n_any')
    o1 = e.get(s.S, s.ok)
    val = lambda l, n: z3.Select(o1, s.OB(l) + n)
    e.prove('the caller gets the last layer', FA(j, IMP(AND(j >= 0, j < s.N(s.LC - 1)), z3.Select(e.get(s.S, ('output', ('[]',))), j) == NET(s.OB(s.LC - 1) + j))), s.S)
    e.prove('every neuron holds its activation', FA(j, IMP(AND(j >= 0, j < s.OB(s.LC)), z3.Select(o1, j) == NET(j))), s.S)
    # NET is the network function: stated for an arbitrary layer and neuron
    pos = s.OB(ll) + nn
    e.prove('the network function of a neuron', IMP(AND(ll >= 1, ll < s.LC, nn >= 0, nn < s.N(ll), s.OB(ll) <= s.OB(ll + 1), s.OB(ll + 1) <= s.OB(s.LC)),
            val(ll, nn) == net(ll, nn)), s.S)
    e.prove('the input layer', IMP(AND(nn >= 0, nn < s.N(0), s.OB(1) <= s.OB(s.LC)), val(IV(0), nn) == z3.Select(X, nn)), s.S)
    frame(e, S0, s.S, s.this, skip=[s.ok[1]])
    e.prove('the input is unchanged', unchanged(e, S0, s.S, ('input', ('[]',))), s.S)
    ck.cover(e, s.S)


def setw(which):
    def t(ck):
        s = P(ck)
        e = s.eng
        s.shape(s.S)
        npar = dict(neuron=3, layer=2, network=1)[which]
        f = s.prog.func(s.rec, 'set_weights', npar)
        ck.under(f)
        l, n = Int('layer'), Int('neuron')
        e.assume(AND(l >= 1, l < s.LC, n >= 0, n < s.N(l)))
        e.assume(AND(s.WB(l + 1) <= s.WB(s.LC), s.WB(l) >= 0))
        if which == 'neuron': base, cnt = s.WIDX(l, n, IV(0)), s.N(l - 1) + 1
        elif which == 'layer': base, cnt = s.WB(l), s.mul(s.N(l - 1) + 1, s.N(l))
        else: base, cnt = IV(0), s.WB(s.LC)
        p = array(e, 'neww', FLT, cnt)
        S0 = s.S.copy()
        V = e.get(S0, ('neww', ('[]',)))
        q = qv('q')
        C, B = Int('cnt'), Int('first')
        e.assume(AND(C == cnt, B == base))

        def cands(L):
            out = s.base_cands(L)
            kept = lambda S: FA(q, IMP(OR(q < B, q >= B + C), s.W(S, q) == s.W(S0, q)), s.W(S, q))
            out.append(('others kept', kept))
            wr = lambda hi: (lambda S: FA(q, IMP(AND(q >= B, q < hi(S)), s.W(S, q) == z3.Select(V, q - B)), s.W(S, q)))
            for n1, k1 in L.int_keys(None):
                v1 = lambda S, k1=k1: L.val(S, k1)
                out.append((f'set below first+{n1}', wr(lambda S, v1=v1: B + v1(S))))
                out.append((f'set below {n1}', wr(lambda S, v1=v1: v1(S))))
                for n2, k2 in L.int_keys(True):
                    if k1 != k2: out.append((f'set below {n1}+{n2}', wr(lambda S, v1=v1, k2=k2: v1(S) + L.val(S, k2))))
            return out
        e.inv_hooks.append(cands)
        args = dict(neuron=[l, n, p], layer=[l, p], network=[p])[which]
        e.invoke(f, s.this, args, s.S)
        e.prove('exactly the addressed weights hold the given values, in order', FA(q, IMP(AND(q >= B, q < B + C), s.W(s.S, q) == z3.Select(V, q - B))), s.S)
        e.prove('every other weight is unchanged', FA(q, IMP(OR(q < B, q >= B + C), s.W(s.S, q) == s.W(S0, q))), s.S)
        frame(e, S0, s.S, s.this, skip=[s.wk[1]])
        e.prove('the given weights are unchanged', unchanged(e, S0, s.S, ('neww', ('[]',))), s.S)
        ck.cover(e, s.S)
    return t


def ctor(default):
    def t(ck):
        s = P(ck)
        e = s.eng
        f = s.prog.ctor(s.rec, lambda f: len(f.params) == 2 and '*' in f.params[0]['type']['qualType'])
        ck.under(f)
        p = array(e, 'sizes', I32, s.LC)
        V = e.get(s.S, ('sizes', ('[]',)))
        i, q = qv('i'), qv('q')
        e.assume(FA(i, AND(z3.Select(V, i) >= -2 ** 31, z3.Select(V, i) < 2 ** 31), z3.Select(V, i)))
        rate = Real('rate')
        if default: rate = e.convert(e.ev(next(iter(e.kids(f.params[1])), None) or e.default_arg(f, 1), s.S), None, FLT)
        e.inv_hooks.append(lambda L: prefix(L, 'size recorded', lambda S, j: z3.Select(e.get(S, s.lk), j) == z3.Select(V, j), hi=s.LC)
                           + prefix(L, 'weight drawn', lambda S, j: s.W(S, j) == s.draw.U(j), hi=s.TC)
                           + [(f'draws {n}', lambda S, k=k: s.draw.n(S) == L.val(S, k)) for n, k in L.int_keys(True)])
        e.invoke(f, s.this, [p, rate], s.S)
        e.prove('the layer sizes are recorded', FA(i, IMP(AND(i >= 0, i < s.LC), z3.Select(e.get(s.S, s.lk), i) == z3.Select(V, i))), s.S)
        e.prove('the learning rate is recorded', e.get(s.S, s.rk) == rate, s.S)
        e.prove('every weight is a draw of the random function', FA(q, IMP(AND(q >= 0, q < s.TC), s.W(s.S, q) == s.draw.U(q))), s.S)
        ck.cover(e, s.S)
    return t


def getw(ck):
    s = P(ck)
    e = s.eng
    f = s.prog.func(s.rec, 'get_weights')
    ck.under(f)
    S0 = s.S.copy()
    r = e.invoke(f, s.this, [], s.S)
    ok = isinstance(r, Ptr) and len(r.alts) == 1 and r.alts[0][1] is not None and r.alts[0][1].path[0] == s.wk[1][0]
    e.prove('get_weights exposes the weights', z3.BoolVal(ok), s.S)
    frame(e, S0, s.S, s.this)
    ck.cover(e, s.S)


def back(ck):
    s = P(ck)
    e = s.eng
    s.shape(s.S)
    f = s.prog.func(s.rec, 'backpropagate')
    ck.under(f)
    last = s.LC - 1
    ex = array(e, 'expected', FLT, s.N(last))
    S0 = s.S.copy()
    E = e.get(S0, ('expected', ('[]',)))
    W0, O0, rate = e.get(S0, s.wk), e.get(S0, s.ok), e.get(S0, s.rk)
    # error signal of the neuron at output position q
    DEL, DEL0 = fuel(e, 'delta')
    D = Sum(e, 'D', lambda l, n, k: s.rm(DEL0(s.OB(l + 1) + k), z3.Select(W0, s.WIDX(l + 1, k, n))), 2)
    q = qv('q')
    l, n = s.LO(q), s.NO(q)
    o = z3.Select(O0, q)
    dl = lambda l, n, o: z3.If(l == last, s.rm(s.DER(o), o - z3.Select(E, n)), s.rm(s.DER(o), D(l, n, s.N(l + 1))))
    e.assume(FA(q, IMP(AND(q >= 0, q < s.OB(s.LC)), DEL(q) == dl(l, n, o)), DEL(q)))
    Er = Sum(e, 'SE', lambda k: s.rm(z3.Select(O0, s.OB(last) + k) - z3.Select(E, k), z3.Select(O0, s.OB(last) + k) - z3.Select(E, k)))
    # the weight at position q after the update
    lw, mw, iw = s.LW(q), s.NW(q), s.IW(q)
    NEWW = z3.Function('neww', I, R)
    src = lambda l, c: z3.If(c == s.N(l - 1), z3.RealVal(1), z3.Select(O0, s.OB(l - 1) + c))
    neww = lambda l, m, c, q: z3.Select(W0, q) - s.rm(s.rm(rate, src(l, c)), DEL0(s.OB(l) + m))
    e.assume(FA(q, IMP(AND(q >= 0, q < s.WB(s.LC)), NEWW(q) == neww(lw, mw, iw, q)), NEWW(q)))

    def cands(L):
        out = s.base_cands(L) + sum_cands(L, Er)
        ints = L.int_keys(None)
        outs = lambda lo: (lambda S: (lambda j: FA(j, IMP(AND(j >= 0, j < s.OB(s.LC)), s.O(S, j) == z3.If(lo(S, j), DEL(j), z3.Select(O0, j))), s.O(S, j)))(qv()))
        upd = lambda p: (lambda S: (lambda j: FA(j, IMP(AND(j >= 0, j < s.TC), s.W(S, j) == z3.If(AND(j < s.WB(s.LC), p(S, j)), NEWW(j), z3.Select(W0, j))), s.W(S, j)))(qv()))
        mo, mw = s.ok in L.mods, s.wk in L.mods
        pos = [(n, lambda S, k=k: L.val(S, k), k) for n, k in ints]
        for n1, v1, k1 in pos + [('last', lambda S: last, None)]:
            for c in (0, 1) if k1 else (0,):
                b = lambda S, v1=v1, c=c: v1(S) + c
                if mo: out.append((f'signals of layers from {n1}+{c}', outs(lambda S, j, b=b: j >= s.OB(b(S)))))
                if mw: out.append((f'weights of layers after {n1}+{c}', upd(lambda S, j, b=b: s.LW(j) > b(S))))
                for n2, v2, k2 in pos:
                    if k1 == k2: continue
                    if mo: out.append((f'signals from {n1}+{c} and neurons below {n2}', outs(lambda S, j, b=b, v2=v2: OR(j >= s.OB(b(S) + 1), AND(j >= s.OB(b(S)), j < s.OB(b(S)) + v2(S))))))
                    if not mw: continue
                    out.append((f'weights after {n1}+{c} and inputs below {n2}', upd(lambda S, j, b=b, v2=v2: OR(s.LW(j) > b(S), AND(s.LW(j) == b(S), s.IW(j) < v2(S))))))
                    for n3, k3 in L.int_keys(True):
                        if k3 in (k1, k2): continue
                        v3 = lambda S, k3=k3: L.val(S, k3)
                        out.append((f'weights after {n1}+{c}, inputs below {n2}, neurons below {n3}', upd(lambda S, j, b=b, v2=v2, v3=v3: OR(s.LW(j) > b(S), AND(s.LW(j) == b(S), OR(s.IW(j) < v2(S), AND(s.IW(j) == v2(S), s.NW(j) < v3(S))))))))
        for nr, kr in L.real_keys(True):
            out += sum_cands(L, D, accs=[(nr, lambda S, kr=kr: e.get(S, kr))])
        return out
    e.inv_hooks.append(cands)
    r = e.invoke(f, s.this, [ex], s.S)
    e.prove('every weight of the network moves by minus rate times input times signal', FA(q, IMP(AND(q >= 0, q < s.WB(s.LC)), s.W(s.S, q) == NEWW(q))), s.S)
    e.prove('no other weight moves', FA(q, IMP(AND(q >= s.WB(s.LC), q < s.TC), s.W(s.S, q) == z3.Select(W0, q))), s.S)
    e.prove('the mean squared error is returned', r == Er(s.N(last)) / z3.ToReal(s.N(last)), s.S)
    frame(e, S0, s.S, s.this, skip=[s.wk[1], s.ok[1]])
    e.prove('the expectation is unchanged', unchanged(e, S0, s.S, ('expected', ('[]',))), s.S)
    # what the position-wise definitions say for an arbitrary layer, neuron and input
    ll, mm, cc = Int('l_any'), Int('m_any'), Int('c_any')
    hyp = AND(ll >= 1, ll < s.LC, mm >= 0, mm < s.N(ll), cc >= 0, cc <= s.N(ll - 1))
    Q = Int('q_any')
    e.prove('the update of the weight of a layer, neuron and input', IMP(AND(hyp, Q == s.WIDX(ll, mm, cc), Q >= 0, Q < s.WB(s.LC), s.LW(Q) == ll, s.NW(Q) == mm, s.IW(Q) == cc),
            s.W(s.S, Q) == neww(ll, mm, cc, Q)), s.S)
    ck.cover(e, s.S)


A = ['at least two layers, layer sizes at least 1, and the network fits into max_size', 'activation and derivative are deterministic functions']
base = dict(headers=[HDR], native='perceptron.cpp', programs=[PROG], assumptions=A)
SPECS = {
    'C21': dict(base, tasks=[('feed_forward', forward)]),
    'C22': dict(base, tasks=[('set_weights neuron', setw('neuron')), ('set_weights layer', setw('layer')), ('set_weights network', setw('network')),
                             ('constructor', ctor(False)), ('constructor default rate', ctor(True)), ('get_weights', getw)]),
    'C23': dict(base, tasks=[('backpropagate', back)]),
}
