"""Contracts of src/reservoir_sampling.hpp (C10, C11)."""
from lib import *

HDR = 'reservoir_sampling.hpp'
PRE = 'struct Fn{ static double random(); template<class T> static int floor(T const x); };'
INST = 'template class ReservoirSampling<int, 7, Fn>; template class ExponentialReservoirSampling<int, 7, Fn>; inline void use_(){ ReservoirSampling<int, 7, Fn> a; ExponentialReservoirSampling<int, 7, Fn> b; }'
PROG = dict(header=HDR, inst=INST, pre=PRE)
MAXI = 2 ** 31 - 1


class R:
    def __init__(s, ck, cls):
        s.ck, s.cls = ck, cls
        s.prog = ck.prog(HDR, INST, pre=PRE)
        s.k = Int('sample_size')
        s.eng = e = ck.engine(s.prog, dict(sample_size=s.k))
        e.assume(AND(s.k >= 1, s.k <= MAXI - 1))
        s.rec = s.prog.rec(cls)
        s.this = obj(e, s.rec)
        s.S = State()
        s.sk = ('this', (fld(s.prog, s.rec, 'sample', lambda t: t.k == 'arr', e), '[]'))
        s.ck_ = ('this', (fld(s.prog, s.rec, 'counter', lambda t: t.k == 'int', e),))
        s.draw = Draws(e, 0, 1)
        s.draw.start(s.S)
        e.models['random'] = s.draw
        e.models['floor'] = lambda eng, args, st, node: eng.convert(z3.ToInt(eng.convert(eng.ev(args[0], st), None, FLT)), None, I32)
        s.n = e.get(s.S, s.ck_)
        e.assume(AND(s.n >= 0, s.n < 2 ** 32 - 2))
        s.x = Int('element')

    def A(s, S): return s.eng.get(S, s.sk)
    def cnt(s, S): return s.eng.get(S, s.ck_)

    def consts(s, fresh=False):
        """const members get the value the constructor gives them"""
        e = s.eng
        for f in s.rec.all_fields(s.prog):
            if 'const' in f['type']['qualType'].split(): raise Unsupported('const member')

    def slot(s, u, m):
        """slot floor(m*u), the last slot when u is 1"""
        v = z3.ToInt(u * z3.ToReal(m))
        return z3.If(v >= m, m - 1, v)


def fresh_obj(cls):
    def t(ck):
        s = R(ck, cls)
        e = s.eng
        S = State()
        construct(e, s.rec, s.this, [], S)
        e.prove('a new reservoir has seen nothing', e.get(S, s.ck_) == 0, S)
        f = s.prog.func(s.rec, 'count')
        ck.under(f)
        S0 = s.S.copy()
        r = e.invoke(f, s.this, [], s.S)
        e.prove('count is the number of elements', r == s.n, s.S)
        frame(e, S0, s.S, s.this)
        ck.cover(e, s.S)
    return t


def adder(cls, name):
    def t(ck):
        s = R(ck, cls)
        e = s.eng
        f = s.prog.func(s.rec, name)
        ck.under(f)
        S0 = s.S.copy()
        A0, n, k = s.A(S0), s.n, s.k
        u1, u2 = s.draw.U(0), s.draw.U(1)
        exp = cls.startswith('Exp')
        if exp: e.assume(AND(n <= k))
        e.assume(AND(u1 >= 0, u1 <= 1, u2 >= 0, u2 <= 1))
        el = cell(e, 'elem', I32)
        s.S.mem[('elem', ())] = s.x
        e.assume(AND(s.x >= -2 ** 31, s.x < 2 ** 31))
        args = []
        if name == 'add':
            args = [LVs(el.alts)] if '&' in f.params[0]['type']['qualType'] else [s.x]
        r = e.invoke(f, s.this, args, s.S)
        A = s.A(s.S)
        j = qv('j')
        if exp:
            replace = OR(n == k, u1 * z3.ToReal(k) < z3.ToReal(n))
            want = z3.If(replace, s.slot(u2, n), n)
            wn = z3.If(replace, n, n + 1)
            e.prove('a valid slot', AND(r >= 0, r < k), s.S)
            e.prove('a filled slot by the second draw, otherwise the next free slot', r == want, s.S)
            e.prove('the count grows exactly when a free slot is filled', s.cnt(s.S) == wn, s.S)
            e.prove('the count never exceeds the size', s.cnt(s.S) <= k, s.S)
            stored = Tt
        else:
            accept = OR(n < k, u1 * z3.ToReal(n + 1) < z3.ToReal(k))
            want = z3.If(n < k, n, z3.If(accept, s.slot(u2, k), IV(-1)))
            e.prove('the first k in order, then accepted below k/n into the slot of the second draw', r == want, s.S)
            e.prove('a valid slot or -1', OR(r == -1, AND(r >= 0, r < k)), s.S)
            e.prove('-1 exactly when it is not accepted', (r == -1) == NOT(accept), s.S)
            e.prove('the count grows by one', s.cnt(s.S) == n + 1, s.S)
            stored = r != -1
        if name == 'add':
            e.prove('the slot holds the element', IMP(stored, z3.Select(A, r) == s.x), s.S)
            e.prove('every other slot is unchanged', FA(j, IMP(OR(NOT(stored), j != r), z3.Select(A, j) == z3.Select(A0, j))), s.S)
        else:
            e.prove('no slot is changed', unchanged(e, S0, s.S, s.sk), s.S)
        frame(e, S0, s.S, s.this, skip=[s.sk[1], s.ck_[1]])
        ck.cover(e, s.S)
    return t


def access(cls):
    def t(ck):
        s = R(ck, cls)
        e = s.eng
        base = s.prog.rec('Reservoir')
        for nth, f in enumerate([m for m in base.methods if m.name == 'operator[]' and m.body is not None]):
            ck.under(f)
            S = s.S.copy()
            i = Int(f'i{nth}')
            e.assume(AND(i >= 0, i < s.k))
            r = e.invoke(f, s.this, [i], S)
            e.prove('operator[] refers to the slot', e.read(r.alts, S) == z3.Select(s.A(s.S), i), S)
            frame(e, s.S, S, s.this)
            ck.cover(e, S)
    return t


ASSUME = ['draws lie in [0,1]', 'floor is the mathematical floor', 'fewer than 2^32-2 elements are added', 'elements are int (the code only copies them)']


def spec(cls):
    return dict(headers=[HDR], native='reservoir.cpp', programs=[PROG], assumptions=ASSUME,
                tasks=[('new and count', fresh_obj(cls)), ('add', adder(cls, 'add')), ('sample_index', adder(cls, 'sample_index')), ('operator[]', access(cls))])


SPECS = {'C10': spec('ReservoirSampling'), 'C11': spec('ExponentialReservoirSampling')}
