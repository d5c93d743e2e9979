"""Contracts of src/cuckoo_filter.hpp (C03, C04, C05)."""
from lib import *

HDR = 'cuckoo_filter.hpp'
PRE = '''struct Fn{ static unsigned char fingerprint(int const*); static unsigned int hash(int const*); static unsigned int hash(unsigned char); };
inline double rnd(); '''
INST = 'template class CuckooFilter<int, 16, 4, 7, Fn, rnd, 3>; inline void use_(){ CuckooFilter<int, 16, 4, 7, Fn, rnd, 3> a; }'
PROG = dict(header=HDR, inst=INST, pre=PRE)
I = z3.IntSort()
ROW = z3.ArraySort(I, I)
GE = ('ghost_E', ('[]', '[]'))


class K:
    def __init__(s, ck, es, abstract=True):
        sym = es is None        # any width
        es = Int('entry_size') if sym else es
        s.ck, s.es = ck, es
        s.prog = ck.prog(HDR, INST, pre=PRE)
        s.BC, s.BS, s.EV = Int('bucket_count'), Int('bucket_size'), Int('empty_value')
        s.eng = e = ck.engine(s.prog, dict(bucket_count=s.BC, bucket_size=s.BS, entry_size=es if sym else IV(es), empty_value=s.EV))
        s.mul = Mul(e)
        if sym:
            e.assume(AND(es >= 1, es <= 8))
            s.top = Int('width_limit')
            e.assume(OR(*[AND(es == k, s.top == 2 ** k) for k in range(1, 9)]))
        else: s.top = 2 ** es
        e.assume(AND(s.BC >= 1, s.BS >= 1, s.BC < 2 ** 30, s.BS < 2 ** 30, s.mul(s.mul(s.BC, s.BS), es if sym else IV(es)) < 2 ** 31 - 16, s.EV >= 0, s.EV < s.top))
        s.rec = s.prog.rec('CuckooFilter')
        s.this = obj(e, s.rec)
        s.fk = ('this', (fld(s.prog, s.rec, 'filter', lambda t: t.k == 'arr' and t.to.k == 'int', e), '[]'))
        s.S = State()
        s.draw = Draws(e, 0, 1, strict=True)
        s.draw.start(s.S)
        e.models['rnd'] = s.draw
        e.models['random_function'] = s.draw
        # user functions
        s.FP, s.HE, s.HF, s.X = z3.Function('fingerprint', I, I), z3.Function('hash_element', I, I), z3.Function('hash_fingerprint', I, I), z3.Function('XOR', I, I, I)
        x, y = qv('x'), qv('y')
        e.assume(FA(x, AND(s.FP(x) >= 0, s.FP(x) < s.top, s.FP(x) != s.EV), s.FP(x)))
        e.assume(FA(x, AND(s.HE(x) >= 0, s.HE(x) < s.BC), s.HE(x)))
        e.assume(FA(x, AND(s.HF(x) >= 0, s.HF(x) < s.BC), s.HF(x)))

        def ptr(eng, a, st):
            v = eng.ev(a, st)
            return eng.read(v.alts, st) if isinstance(v, Ptr) else None, v

        def fp(eng, args, st, node): return s.FP(ptr(eng, args[0], st)[0])

        def hs(eng, args, st, node):
            el, v = ptr(eng, args[0], st)
            return s.HE(el) if el is not None else s.HF(v)
        e.models['fingerprint'], e.models['hash'] = fp, hs
        e.models['^'] = lambda eng, a, b, st: s.X(a, b)
        # exclusive or of indices below a power of two (lemma, proved on bit vectors)
        bx, by, m = z3.BitVecs('bx by m', 32)
        S = State()
        pow2 = AND(m != 0, (m & (m - 1)) == 0, z3.ULT(bx, m), z3.ULT(by, m))
        e.prove('lemma: exclusive or stays below a power of two', IMP(pow2, z3.ULT(bx ^ by, m)), S)
        e.prove('lemma: exclusive or undoes itself', (bx ^ by) ^ by == bx, S)
        rg = lambda v: AND(v >= 0, v < s.BC)
        e.assume(FA([x, y], IMP(AND(rg(x), rg(y)), AND(rg(s.X(x, y)), s.X(s.X(x, y), y) == x)), s.X(x, y)))
        e.assume(FA([x, y], s.X(x, y) == s.X(y, x), s.X(x, y)))
        s.abstract, s.fresh = abstract, False      # fresh: writes before the first set_entry of a constructor leave the entries arbitrary
        if abstract: s.entries()

    def E(s, S): return s.eng.get(S, GE)
    def at(s, S, b, j): return SEL(s.E(S), b, j)
    def inb(s, b): return AND(b >= 0, b < s.BC)
    def inj(s, j): return AND(j >= 0, j < s.BS)

    def entries(s):
        """callers of get_entry and set_entry see the filter as a matrix of entries (their contracts are proved separately)"""
        e = s.eng
        e.leaf_ty[GE] = U8
        g, st_ = s.prog.func(s.rec, 'get_entry', 2), s.prog.func(s.rec, 'set_entry', 3)
        b, j = qv('b'), qv('j')
        e.assume(FA([b, j], AND(s.at(s.S, b, j) >= 0, s.at(s.S, b, j) < s.top), s.at(s.S, b, j)))
        req = lambda eng, this, vals, st: [('the bucket exists', s.inb(vals[0])), ('the entry exists', s.inj(vals[1]))]
        reqs = lambda eng, this, vals, st: req(eng, this, vals, st) + [('the value fits in an entry', AND(vals[2] >= 0, vals[2] < s.top))]

        def geff(eng, this, vals, st): return s.at(st, vals[0], vals[1])

        def seff(eng, this, vals, st):
            A = s.E(st)
            st.mem[GE] = z3.Store(A, vals[0], z3.Store(z3.Select(A, vals[0]), vals[1], vals[2]))
        e.contracts[g.id], e.contracts[st_.id] = Contract(requires=req, effect=geff), Contract(requires=reqs, effect=seff)
        get0, wr0 = e.get, e.write_lv

        def get(st, key, *a):
            if key == s.fk and not (s.fresh and GE not in st.mem): raise Unsupported('the filter is accessed around get_entry and set_entry')
            return get0(st, key, *a)
        e.get = get

        def wr(lv, *a):
            if lv.key == s.fk and not (s.fresh and GE not in a[1].mem): raise Unsupported('the filter is accessed around get_entry and set_entry')
            return wr0(lv, *a)
        e.write_lv = wr

    def counting(s):
        """copies of a fingerprint in a bucket, with lemmas proved by induction"""
        e = s.eng
        C = z3.Function('C', ROW, I, I, I)      # row, fingerprint, entries
        a, f, i, v = z3.Const('a?', ROW), z3.Const('f?', I), z3.Const('i?', I), z3.Const('v?', I)
        eq = lambda x, y: z3.If(x == y, IV(1), IV(0))
        ac, fc, nc, ic, vc = z3.Const('a_', ROW), Int('f_'), Int('n_'), Int('i_'), Int('v_')
        unf = lambda a, n: AND(C(a, fc, 0) == 0, C(a, fc, n + 1) == C(a, fc, n) + eq(z3.Select(a, n), fc))
        st = z3.Store(ac, ic, vc)
        law = lambda n: C(st, fc, n) == C(ac, fc, n) + z3.If(AND(ic >= 0, ic < n), eq(vc, fc) - eq(z3.Select(ac, ic), fc), IV(0))
        S = State()
        h = AND(unf(st, nc), unf(ac, nc), nc >= 0)
        e.prove('lemma: copies start at zero', IMP(h, law(IV(0))), S)
        e.prove('lemma: storing changes the copies by the difference', IMP(AND(h, law(nc)), law(nc + 1)), S)
        e.prove('lemma: copies are not negative', IMP(AND(h, C(ac, fc, nc) >= 0), C(ac, fc, nc + 1) >= 0), S)
        j = qv('j')
        some = lambda n: z3.Exists(j, AND(j >= 0, j < n, z3.Select(ac, j) == fc))
        e.prove('lemma: there is a copy exactly if the number is positive', IMP(AND(h, C(ac, fc, nc) >= 0, (C(ac, fc, nc) > 0) == some(nc)), (C(ac, fc, nc + 1) > 0) == some(nc + 1)), S)
        s.CNT, W = z3.Function('CNT', ROW, I, I), z3.Function('where', ROW, I, I)
        s.W = W
        e.assume(FA([a, f], AND(s.CNT(a, f) >= 0, IMP(s.CNT(a, f) > 0, AND(s.inj(W(a, f)), z3.Select(a, W(a, f)) == f))), s.CNT(a, f)))
        e.assume(FA([a, f, i], IMP(AND(s.inj(i), z3.Select(a, i) == f), s.CNT(a, f) > 0), z3.MultiPattern(s.CNT(a, f), z3.Select(a, i))))
        e.assume(FA([a, f, i, v], s.CNT(z3.Store(a, i, v), f) == s.CNT(a, f) + z3.If(s.inj(i), eq(v, f) - eq(z3.Select(a, i), f), IV(0)), s.CNT(z3.Store(a, i, v), f)))

    def copies(s, E, f, b):
        b2 = s.X(b, s.HF(f))
        return s.CNT(z3.Select(E, b), f) + z3.If(b2 == b, IV(0), s.CNT(z3.Select(E, b2), f))

    def elem(s):
        p = cell(s.eng, 'elem', I32)
        s.x = Int('x')
        s.S.mem[('elem', ())] = s.x
        s.eng.assume(AND(s.x >= -2 ** 31, s.x < 2 ** 31))
        return p

    def call(s, name, byval):
        e = s.eng
        p = s.elem()
        isp = lambda f: '*' in f.params[0]['type']['qualType']
        f = s.prog.func(s.rec, name, 1, sel=lambda f: isp(f) != byval)
        s.ck.under(f)
        S0 = s.S.copy()
        r = e.invoke(f, s.this, [s.x if byval else p], s.S)
        if not byval: e.prove('the element is unchanged', e.get(s.S, ('elem', ())) == s.x, s.S)
        return S0, r

    def search_contract(s):
        e = s.eng
        try: f = s.prog.func(s.rec, 'search', 3)
        except ExtractError: return

        def eff(eng, this, vals, st):
            x = eng.read(vals[0].alts, st)
            b, j, r = eng.fresh('b', I), eng.fresh('j', I), eng.fresh('found', z3.BoolSort())
            b0 = eng.read(vals[1].alts, st) if False else None
            eng.write(vals[1].alts, b, st)
            eng.write(vals[2].alts, j, st)
            for _, g in s.search_post(s.E(st), x, r, b, j): eng.facts.append(IMP(AND(*st.pc), g))
            return r
        e.contracts[f.id] = Contract(effect=eff)

    def search_post(s, E, x, r, b, j):
        f, h = s.FP(x), s.HE(x)
        h2 = s.X(h, s.HF(f))
        k = qv('k')
        none = lambda h: FA(k, IMP(s.inj(k), SEL(E, h, k) != f), SEL(E, h, k))
        return [('found: an entry of a candidate bucket holds the fingerprint', IMP(r, AND(OR(b == h, b == h2), s.inj(j), SEL(E, b, j) == f))),
                ('not found: no entry of the first bucket holds it', IMP(NOT(r), none(h))),
                ('not found: no entry of the second bucket holds it', IMP(NOT(r), none(h2)))]

    def search_cands(s, L):
        e = s.eng
        f, h = s.FP(s.x), s.HE(s.x)
        h2 = s.X(h, s.HF(f))
        out = []
        if GE in L.mods: return out
        for val, vn in ((f, 'fp'), (s.EV, 'empty')):
            for hn, hb in (('h1', h), ('h2', h2)) if vn == 'fp' else [(n, t) for n, t in fixed_terms(L)]:
                out += prefix(L, f'no {vn} in {hn}', lambda S, j, hb=hb, val=val: s.at(S, hb, j) != val)
                if vn == 'fp':
                    for n, k in L.int_keys(None):
                        for lim in (1, 2):
                            out.append((f'{hn} searched when {n} >= {lim}', lambda S, k=k, lim=lim, hb=hb: (lambda q: IMP(L.val(S, k) >= lim, FA(q, IMP(s.inj(q), s.at(S, hb, q) != f), s.at(S, hb, q))))(qv())))
        if not L.int_keys(False) or True:
            for n, k in L.int_keys(None):
                for n2, k2 in L.int_keys(True):
                    if k == k2: continue
                    for lim in (0, 1):
                        hb = (h, h2)[lim]
                        out.append((f'bucket {lim} searched below {n2} when {n}=={lim}', lambda S, k=k, k2=k2, lim=lim, hb=hb: (lambda q: IMP(L.val(S, k) == lim, FA(q, IMP(AND(q >= 0, q < L.val(S, k2)), s.at(S, hb, q) != f), s.at(S, hb, q))))(qv())))
        return out


def packing(es):
    def t(ck):
        s = K(ck, es, abstract=False)
        e = s.eng
        g, st_ = s.prog.func(s.rec, 'get_entry', 2), s.prog.func(s.rec, 'set_entry', 3)
        ck.under(g)
        ck.under(st_)
        b, j, v, b2, j2 = Int('b'), Int('j'), Int('v'), Int('b2'), Int('j2')
        e.assume(AND(s.inb(b), s.inj(j), v >= 0, v < s.top, s.inb(b2), s.inj(j2)))
        p = qv('p')
        cell_ = z3.Select(e.get(s.S, s.fk), p)
        e.assume(FA(p, AND(cell_ >= 0, cell_ <= 255), cell_))
        e.assume(e.get(s.S, ('this', ('element_size',))) == 4) if False else None
        S0 = s.S.copy()
        Sa = S0.copy()
        r0 = e.invoke(g, s.this, [b2, j2], Sa)
        frame(e, S0, Sa, s.this, label='get_entry changes nothing')
        e.prove('an entry is a value of the entry width', AND(r0 >= 0, r0 < s.top), Sa)
        e.invoke(st_, s.this, [b, j, v], s.S)
        frame(e, S0, s.S, s.this, skip=[s.fk[1]], label='set_entry changes only the filter')
        Sb = s.S.copy()
        r1 = e.invoke(g, s.this, [b2, j2], Sb)
        e.prove('set_entry stores the value in its entry', IMP(AND(b == b2, j == j2), r1 == v), Sb)
        e.prove('set_entry keeps every other entry', IMP(NOT(AND(b == b2, j == j2)), r1 == r0), Sb)
        ck.cover(e, Sb)
    return t


def search(ck):
    s = K(ck, None)
    e = s.eng
    p = s.elem()
    f = s.prog.func(s.rec, 'search', 3)
    ck.under(f)
    e.inv_hooks.append(s.search_cands)
    ob, oj = cell(e, 'out_b', U32), cell(e, 'out_j', U32)
    S0 = s.S.copy()
    r = e.invoke(f, s.this, [p, LVs(ob.alts), LVs(oj.alts)], s.S)
    for nm, g in s.search_post(s.E(S0), s.x, r, e.get(s.S, ('out_b', ())), e.get(s.S, ('out_j', ()))): e.prove(nm, g, s.S)
    e.prove('no entry changes', s.E(s.S) == s.E(S0), s.S)
    ck.cover(e, s.S)


def lookup(byval):
    def t(ck):
        s = K(ck, None)
        e = s.eng
        s.counting()
        s.x = Int('x')
        e.inv_hooks.append(s.search_cands)
        s.search_contract()
        S0, r = s.call('lookup', byval)
        e.prove('yes exactly when a candidate bucket holds the fingerprint', r == (s.copies(s.E(S0), s.FP(s.x), s.HE(s.x)) > 0), s.S)
        e.prove('no entry changes', s.E(s.S) == s.E(S0), s.S)
        ck.cover(e, s.S)
    return t


def remove(byval):
    def t(ck):
        s = K(ck, None)
        e = s.eng
        s.counting()
        s.x = Int('x')
        e.inv_hooks.append(s.search_cands)
        s.search_contract()
        S0, r = s.call('remove', byval)
        E0, E1 = s.E(S0), s.E(s.S)
        f, h = s.FP(s.x), s.HE(s.x)
        h2 = s.X(h, s.HF(f))
        has = s.copies(E0, f, h) > 0
        b, j, b2, j2 = qv('b'), qv('j'), qv('b'), qv('j')
        e.prove('not present: nothing changes', IMP(NOT(has), E1 == E0), s.S)
        e.prove('present: one entry of a candidate bucket that held the fingerprint becomes empty and every other entry stays',
                IMP(has, z3.Exists([b, j], AND(OR(b == h, b == h2), s.inb(b), s.inj(j), SEL(E0, b, j) == f, SEL(E1, b, j) == s.EV,
                        FA([b2, j2], IMP(NOT(AND(b2 == b, j2 == j)), SEL(E1, b2, j2) == SEL(E0, b2, j2)), SEL(E1, b2, j2))))), s.S)
        e.prove('exactly one copy is deleted', s.copies(E1, f, h) == s.copies(E0, f, h) - z3.If(has, IV(1), IV(0)), s.S)
        ck.cover(e, s.S)
    return t


def space(ck):
    s = K(ck, None)
    e = s.eng
    f = s.prog.func(s.rec, 'space_in_bucket', 1)
    ck.under(f)
    b = Int('b')
    e.assume(s.inb(b))
    s.x = Int('x')
    e.inv_hooks.append(s.search_cands)
    S0 = s.S.copy()
    r = e.invoke(f, s.this, [b], s.S)
    for nm, g in space_post(s, s.E(S0), b, r): e.prove(nm, g, s.S)
    e.prove('no entry changes', s.E(s.S) == s.E(S0), s.S)
    ck.cover(e, s.S)


def space_post(s, E, b, r):
    k = qv('k')
    return [('an empty entry, or -1 exactly if there is none', AND(r >= -1, r < s.BS, IMP(r >= 0, SEL(E, b, r) == s.EV), IMP(r < 0, FA(k, IMP(s.inj(k), SEL(E, b, k) != s.EV), SEL(E, b, k)))))]


def space_contract(s):
    e = s.eng
    try: f = s.prog.func(s.rec, 'space_in_bucket', 1)
    except ExtractError: return
    req = lambda eng, this, vals, st: [('the bucket exists', s.inb(vals[0]))]

    def eff(eng, this, vals, st):
        r = eng.fresh('space', I)
        for _, g in space_post(s, s.E(st), vals[0], r): eng.facts.append(IMP(AND(*st.pc), g))
        return r
    e.contracts[f.id] = Contract(requires=req, effect=eff)


def add(byval, what):
    def t(ck):
        s = K(ck, None)
        e = s.eng
        s.counting()
        space_contract(s)
        s.x = Int('x')
        S0 = s.S.copy()
        E0 = s.E(S0)
        fs, bs = Int('any_fp'), Int('any_bucket')
        e.assume(AND(fs >= 0, fs < s.top, fs != s.EV, s.inb(bs)))
        f, h = s.FP(s.x), s.HE(s.x)
        h2 = s.X(h, s.HF(f))
        pair = lambda h: OR(h == bs, h == s.X(bs, s.HF(fs)))
        mine = lambda f, h: z3.If(AND(f == fs, pair(h)), IV(1), IV(0))
        k = qv('k')
        full = lambda E, b: FA(k, IMP(s.inj(k), SEL(E, b, k) != s.EV), SEL(E, b, k))
        full0 = AND(full(E0, h), full(E0, h2))

        def cands(L):
            out = []
            ints = L.int_keys(True)
            mod = [(n, kk) for n, kk in ints]
            for n1, k1 in mod:
                out.append((f'{n1} is a fingerprint', lambda S, k1=k1: AND(L.val(S, k1) >= 0, L.val(S, k1) < s.top, L.val(S, k1) != s.EV)))
                out.append((f'{n1} is a bucket', lambda S, k1=k1: s.inb(L.val(S, k1))))
                if what == 'free':
                    p1 = L.val(L.pre, k1)
                    out.append((f'{n1} as given unless both buckets were full', lambda S, k1=k1, p1=p1: OR(full0, L.val(S, k1) == p1)))
                for n2, k2 in mod:
                    if k1 == k2: continue
                    if what == 'copies': out.append((f'copies with {n1} at {n2} in hand', lambda S, k1=k1, k2=k2: s.copies(s.E(S), fs, bs) + mine(L.val(S, k1), L.val(S, k2)) == s.copies(E0, fs, bs) + mine(f, h)))
                    for n3, k3 in mod:
                        if k3 in (k1, k2): continue
                        out.append((f'{n3} == {n2} ^ hash({n1})', lambda S, k1=k1, k2=k2, k3=k3: L.val(S, k3) == s.X(L.val(S, k2), s.HF(L.val(S, k1)))))
            if GE in L.mods: out.append(('entries are values of the entry width', lambda S: (lambda b, j: FA([b, j], AND(s.at(S, b, j) >= 0, s.at(S, b, j) < s.top), s.at(S, b, j)))(qv('b'), qv('j'))))
            if what == 'free': out.append(('nothing moved unless both buckets were full', lambda S: OR(full0, s.E(S) == E0)))
            for n, kk in L.bool_keys(True): out.append((f'not yet {n}', lambda S, kk=kk: NOT(e.get(S, kk))))
            return out
        e.inv_hooks.append(cands)
        S0, r = s.call('add', byval)
        E1 = s.E(s.S)
        if what == 'copies':
            e.prove('success: one more copy of the element and as many of every other', IMP(r, s.copies(E1, fs, bs) == s.copies(E0, fs, bs) + mine(f, h)), s.S)
        else:
            b, j, b2, j2 = qv('b'), qv('j'), qv('b'), qv('j')
            e.prove('an add with a free candidate entry succeeds', IMP(NOT(full0), r), s.S)
            e.prove('it fills one such entry and changes no other', IMP(NOT(full0), z3.Exists([b, j], AND(OR(b == h, b == h2), s.inb(b), s.inj(j), SEL(E0, b, j) == s.EV, SEL(E1, b, j) == f,
                        FA([b2, j2], IMP(NOT(AND(b2 == b, j2 == j)), SEL(E1, b2, j2) == SEL(E0, b2, j2)), SEL(E1, b2, j2))))), s.S)
        ck.cover(e, s.S)
    return t


def pair_lemma(ck):
    s = K(ck, None)
    e = s.eng
    s.counting()
    b, f = Int('b'), Int('f')
    e.assume(AND(s.inb(b), f >= 0, f < s.top))
    b2 = s.X(b, s.HF(f))
    E = s.E(s.S)
    e.prove('lemma: both candidate buckets name the same pair', AND(s.X(b2, s.HF(f)) == b, s.copies(E, f, b) == s.copies(E, f, b2)), State())
    ck.cover(e, s.S)


def empty(how):
    def t(ck):
        def run(abstract):
            s = K(ck, None, abstract=abstract)
            e = s.eng
            b, j = Int('b_any'), Int('j_any')
            e.assume(AND(s.inb(b), s.inj(j)))

            def cands(L):
                out = []
                fx = fixed_terms(L)
                if abstract:
                    q, w = qv('q'), qv('w')
                    at = lambda S, q, w: s.at(S, q, w) == s.EV
                    for n, k in L.int_keys(None):
                        v = lambda S, k=k: L.val(S, k)
                        out.append((f'buckets below {n} are empty', lambda S, v=v: FA([q, w], IMP(AND(q >= 0, q < v(S), s.inj(w)), at(S, q, w)), s.at(S, q, w))))
                        for n2, k2 in L.int_keys(True):
                            if k == k2: continue
                            out.append((f'entries of {n} below {n2} are empty', lambda S, v=v, k2=k2: FA(w, IMP(AND(w >= 0, w < L.val(S, k2)), at(S, v(S), w)), s.at(S, v(S), w))))
                else:
                    out += prefix(L, 'zero', lambda S, q: z3.Select(e.get(S, s.fk), q) == 0)
                return out
            e.inv_hooks.append(cands)
            if how == 'clear':
                f = s.prog.func(s.rec, 'clear', 0)
                ck.under(f)
                e.invoke(f, s.this, [], s.S)
            else:
                s.fresh = True
                f = construct(e, s.rec, s.this, [], s.S)
                if f: ck.under(f)
            if abstract: e.prove('every entry is empty', s.at(s.S, b, j) == s.EV, s.S)
            else:
                r = e.invoke(s.prog.func(s.rec, 'get_entry', 2), s.this, [b, j], s.S)
                e.prove('every entry is empty', r == s.EV, s.S)
            ck.cover(e, s.S)
        try: run(True)
        except Unsupported as u:
            if os.environ.get("DV_TRACE"): print(u)
            run(False)
    return t


A = ['bucket_count is a power of two, user hashes are in range, the fingerprint fits in entry_size bits and is not the empty value', 'bucket_count * bucket_size * entry_size < 2^31',
     'draws lie in [0,1)', 'elements are int']
base = dict(headers=[HDR], native='cuckoo.cpp', programs=[PROG], assumptions=A)
PACK = [(f'entries of {n} bits', packing(n)) for n in range(1, 9)]
SPECS = {
    'C03': dict(base, tasks=PACK + [('space_in_bucket', space), ('candidate pairs', pair_lemma), ('add', add(False, 'copies')), ('add by value', add(True, 'copies'))]),
    'C04': dict(base, tasks=PACK + [('search', search), ('lookup', lookup(False)), ('lookup by value', lookup(True)), ('remove', remove(False)), ('remove by value', remove(True))]),
    'C05': dict(base, tasks=PACK + [('constructor', empty('new')), ('clear', empty('clear')), ('space_in_bucket', space), ('add', add(False, 'free')), ('add by value', add(True, 'free'))]),
}
