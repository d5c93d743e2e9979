"""Contracts of src/bloom_filter.hpp (C01, C02)."""
from lib import *

HDR = 'bloom_filter.hpp'
INST = 'template class BloomFilter<int, 29, 3>;'
PROG = dict(header=HDR, inst=INST)


class Setup:
    def __init__(s, ck):
        s.ck = ck
        s.prog = ck.prog(HDR, INST)
        s.N, s.K = Int('bit_size'), Int('hash_count')
        s.eng = e = ck.engine(s.prog, dict(bit_size=s.N, hash_count=s.K))
        e.assume(z3.And(s.N >= 1, s.N < 2 ** 31 - 1, s.K >= 1, s.K < 2 ** 31 - 1))
        s.rec = s.prog.rec('BloomFilter')
        s.this = obj(e, s.rec)
        s.bits = ('this', (fld(s.prog, s.rec, 'bits', lambda t: t.k == 'arr' and t.to.k == 'int', e), '[]'))
        s.hk = ('this', (fld(s.prog, s.rec, 'hashs', lambda t: t.k == 'arr' and t.to.k == 'fn', e), '[]'))
        s.H = z3.Function('H', z3.IntSort(), z3.IntSort(), z3.IntSort())
        f, x = qv('f'), qv('x')
        # precondition of the property: hash results lie inside the filter
        e.assume(FA([f, x], z3.And(s.H(f, x) >= 0, s.H(f, x) < s.N), s.H(f, x)))
        e.models['fnptr'] = fn_model(s.H)
        s.S = State()
        s.x = Int('x')
        e.assume(z3.And(s.x >= -2 ** 31, s.x < 2 ** 31))

    def row(s, S): return s.eng.get(S, s.bits)
    def bit(s, S, p): return z3.Select(s.row(S), p) % 2 == 1
    def pos(s, S, j, x=None): return s.H(z3.Select(s.eng.get(S, s.hk), j), s.x if x is None else x)

    def bytes_ok(s):
        """cells are bytes; hash functions were checked by the constructor"""
        p = qv('p')
        a = s.row(s.S)
        s.eng.assume(FA(p, z3.And(z3.Select(a, p) >= 0, z3.Select(a, p) <= 255), z3.Select(a, p)))

    def consts(s):
        """run the constructor to learn the const members"""
        e = s.eng
        r, o = e.record, list(e.facts)
        e.record = False
        S = State()
        h = array(e, 'h', T('fn'), s.K)
        j = qv()
        e.assume(FA(j, z3.Select(e.get(S, ('h', ('[]',))), j) != 0))
        e.invoke(s.prog.ctor(s.rec, lambda f: len(f.params) == 1 and '*' in f.params[0]['type']['qualType']), s.this, [h], S)
        cf = const_fields(e, s.rec, S, s.this)
        e.facts[:] = o
        e.record = r
        e.sol = None
        e.seen_rng = set()
        for k, v in cf: e.assume(e.get(s.S, k) == v)

    def elem(s):
        p = cell(s.eng, 'elem', I32)
        s.S.mem[('elem', ())] = s.x
        return p

    def methods(s, name):
        byp = s.prog.func(s.rec, name, 1, lambda f: '*' in f.params[0]['type']['qualType'])
        byv = s.prog.func(s.rec, name, 1, lambda f: '*' not in f.params[0]['type']['qualType'])
        s.ck.under(byp, byv)
        return byp, byv


def t_ctor_c01(ck): t_ctor(ck, False)


def t_ctor(ck, exact=True):
    s = Setup(ck)
    e = s.eng
    h = array(e, 'h', T('fn'), s.K)
    hk = ('h', ('[]',))
    j, p = qv(), qv('p')
    e.assume(FA(j, IMP(AND(j >= 0, j < s.K), z3.Select(e.get(s.S, hk), j) != 0)))
    e.inv_hooks.append(lambda L: prefix(L, 'hash stored', lambda S, j: z3.Select(e.get(S, s.hk), j) == z3.Select(e.get(S, hk), j), hi=s.K)
                       + prefix(L, 'cell zero', lambda S, j: z3.Select(s.row(S), j) == 0, hi=s.N))
    f = s.prog.ctor(s.rec, lambda f: len(f.params) == 1 and '*' in f.params[0]['type']['qualType'])
    ck.under(f)
    e.invoke(f, s.this, [h], s.S)
    e.prove('the hash functions are the given ones', FA(j, IMP(AND(j >= 0, j < s.K), z3.Select(e.get(s.S, s.hk), j) == z3.Select(e.get(s.S, hk), j))), s.S)
    if exact: e.prove('a new filter has no position set', FA(p, IMP(AND(p >= 0, p < s.N), NOT(s.bit(s.S, p)))), s.S)
    ck.cover(e, s.S)


def t_clear(ck):
    s = Setup(ck)
    e = s.eng
    s.consts()
    S0 = s.S.copy()
    p = qv('p')
    e.inv_hooks.append(lambda L: prefix(L, 'cell zero', lambda S, j: z3.Select(s.row(S), j) == 0, hi=s.N))
    f = s.prog.func(s.rec, 'clear')
    ck.under(f)
    e.invoke(f, s.this, [], s.S)
    e.prove('clear leaves no position set', FA(p, IMP(AND(p >= 0, p < s.N), NOT(s.bit(s.S, p)))), s.S)
    frame(e, S0, s.S, s.this, skip=[s.bits[1]])
    ck.cover(e, s.S)


def t_set(ck):
    s = Setup(ck)
    e = s.eng
    s.consts()
    S0 = s.S.copy()
    nb = array(e, 'nb', U8, s.N)
    A = e.get(s.S, ('nb', ('[]',)))
    p = qv('p')
    e.assume(FA(p, AND(z3.Select(A, p) >= 0, z3.Select(A, p) <= 255), z3.Select(A, p)))
    e.inv_hooks.append(lambda L: prefix(L, 'cell loaded', lambda S, j: z3.Select(s.row(S), j) == z3.Select(A, j), hi=s.N))
    f = s.prog.func(s.rec, 'set')
    ck.under(f)
    e.invoke(f, s.this, [nb], s.S)
    e.prove('the filter equals the loaded array', FA(p, IMP(AND(p >= 0, p < s.N), z3.Select(s.row(s.S), p) == z3.Select(A, p))), s.S)
    frame(e, S0, s.S, s.this, skip=[s.bits[1]])
    e.prove('the given array is unchanged', unchanged(e, S0, s.S, ('nb', ('[]',))), s.S)
    ck.cover(e, s.S)


def add_task(byval, exact):
    def t(ck):
        s = Setup(ck)
        e = s.eng
        s.consts()
        s.bytes_ok()
        el = s.elem()
        S0 = s.S.copy()
        a0 = s.row(S0)
        p, j = qv('p'), qv()
        # W: any set of positions that contains the element's (so: exactly those)
        W = z3.Function('W', z3.IntSort(), z3.BoolSort())
        e.assume(FA(j, IMP(AND(j >= 0, j < s.K), W(s.pos(S0, j))), s.pos(S0, j)))
        e.inv_hooks.append(lambda L: prefix(L, 'position set', lambda S, j: s.bit(S, s.pos(S0, j)), hi=s.K, pats=lambda S, j: [s.pos(S0, j)]) + [
            ('bits kept', lambda S: FA(p, IMP(s.bit(S0, p), s.bit(S, p)), z3.Select(s.row(S), p))),
            ('only own positions', lambda S: FA(p, IMP(AND(s.bit(S, p), NOT(s.bit(S0, p))), W(p)), z3.Select(s.row(S), p))),
            ('cells stay bytes', lambda S: FA(p, AND(z3.Select(s.row(S), p) >= 0, z3.Select(s.row(S), p) <= 255), z3.Select(s.row(S), p)))])
        f = s.methods('add')[byval]
        e.invoke(f, s.this, [s.x if byval else el], s.S)
        e.prove('every position of the element is set', FA(j, IMP(AND(j >= 0, j < s.K), s.bit(s.S, s.pos(S0, j)))), s.S)
        e.prove('no set position is lost', FA(p, IMP(s.bit(S0, p), s.bit(s.S, p))), s.S)
        if exact: e.prove('no other position is set', FA(p, IMP(AND(p >= 0, p < s.N, s.bit(s.S, p), NOT(s.bit(S0, p))), W(p))), s.S)
        frame(e, S0, s.S, s.this, skip=[s.bits[1]])
        if not byval: e.prove('the element is unchanged', unchanged(e, S0, s.S, ('elem', ())), s.S)
        ck.cover(e, s.S)
    return t


def lookup_task(byval, exact):
    def t(ck):
        s = Setup(ck)
        e = s.eng
        s.consts()
        s.bytes_ok()
        el = s.elem()
        S0 = s.S.copy()
        j = qv()
        e.inv_hooks.append(lambda L: prefix(L, 'position set', lambda S, j: s.bit(S, s.pos(S0, j)), hi=s.K, pats=lambda S, j: [s.pos(S0, j)])
                           + flag_cands(L, s, S0))
        f = s.methods('lookup')[byval]
        r = e.invoke(f, s.this, [s.x if byval else el], s.S)
        if exact: e.prove('yes only when every position is set', IMP(r, FA(j, IMP(AND(j >= 0, j < s.K), s.bit(S0, s.pos(S0, j))))), s.S)
        k = qv('k')
        e.prove('yes whenever every position is set', IMP(FA(k, IMP(AND(k >= 0, k < s.K), s.bit(S0, s.pos(S0, k))), s.pos(S0, k)), r), s.S)
        frame(e, S0, s.S, s.this)
        if not byval: e.prove('the element is unchanged', unchanged(e, S0, s.S, ('elem', ())), s.S)
        ck.cover(e, s.S)
    return t


def flag_cands(L, s, S0):
    """a boolean local that accumulates the answer"""
    out = []
    allset = None
    for nm, key in L.bool_keys(True):
        for pol in (True, False):
            def all_(S, key=key, pol=pol):
                k = qv('k')
                hyp = FA(k, IMP(AND(k >= 0, k < s.K), s.bit(S0, s.pos(S0, k))), s.pos(S0, k))
                return IMP(hyp, S.mem[key] if pol else NOT(S.mem[key]))
            out.append((f'{nm} {pol} if all set', all_))
            out += [(f'{l} if {nm} is {pol}', (lambda S, g=g, key=key, pol=pol: IMP(S.mem[key] if pol else NOT(S.mem[key]), g(S))))
                    for l, g in prefix(L, 'position set', lambda S, j: s.bit(S, s.pos(S0, j)), hi=s.K, pats=lambda S, j: [s.pos(S0, j)])]
    return out


ASSUME = ['the hash functions are deterministic functions of the element, and their results lie inside the filter (precondition in the property)',
          'bit_size and hash_count are between 1 and 2^31-2']
CTOR, CLEAR, SET = ('constructor', t_ctor), ('clear', t_clear), ('set', t_set)


def both(exact):
    return [('add (pointer)', add_task(False, exact)), ('add (value)', add_task(True, exact)),
            ('lookup (pointer)', lookup_task(False, exact)), ('lookup (value)', lookup_task(True, exact))]


base = dict(headers=[HDR], native='bloom.cpp', programs=[PROG], assumptions=ASSUME)
SPECS = {
    'C01': dict(base, tasks=[('constructor', t_ctor_c01)] + both(False)),
    'C02': dict(base, tasks=[CTOR, CLEAR, SET] + both(True)),
}
