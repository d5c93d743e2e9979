"""Contracts of src/ltc.hpp (C08, C09)."""
from lib import *

HDR = 'ltc.hpp'
INST = 'template class LTC<int, int, 3, 100, -100, 2>; inline void use_(){ LTC<int, int, 3, 100, -100, 2> a; }'
PROG = dict(header=HDR, inst=INST)
R2 = z3.ToReal


class T_:
    def __init__(s, ck, counter):
        s.ck = ck
        s.prog = ck.prog(HDR, INST)
        s.EPS, s.MAX, s.MIN, s.K = Int('epsilon'), Int('max_value'), Int('min_value'), Int('time_unit_difference')
        s.eng = e = ck.engine(s.prog, dict(epsilon=s.EPS, max_value=s.MAX, min_value=s.MIN, time_unit_difference=s.K))
        lim = 2 ** 28
        e.assume(AND(s.EPS >= 0, s.EPS < lim, s.MIN <= s.MAX, s.MAX < lim, s.MIN > -lim, s.K >= 1, s.K < lim))
        s.rec = s.prog.rec('LTC')
        s.this = obj(e, s.rec)
        g = lambda *p: ('this', p)
        s.Pt, s.Pv = g('last_transmit_point', 'timestamp'), g('last_transmit_point', 'value')
        s.Ut, s.Uv, s.Lt, s.Lv = g('UL', 'timestamp'), g('UL', 'value'), g('LL', 'timestamp'), g('LL', 'value')
        s.Tt, s.Tv = g('to_transmit', 'timestamp'), g('to_transmit', 'value')
        s.cnt = g('counter')
        for k in (s.Pt, s.Pv, s.Ut, s.Uv, s.Lt, s.Lv, s.Tt, s.Tv, s.cnt):
            if k not in e.leaf_ty: raise ExtractError(f'no field {".".join(k[1])}')
        s.S = State()
        e.assume(e.get(s.S, s.cnt) == counter)
        s.t, s.v = Int('timestamp'), Int('value')
        e.assume(AND(s.v >= s.MIN, s.v <= s.MAX, s.t < lim, s.t > -lim))
        if counter: e.assume(AND(s.at(s.S, s.Pt) > -lim, s.at(s.S, s.Pv) > -lim, s.at(s.S, s.Pv) < lim, s.t > s.at(s.S, s.Pt)))
        if counter == 2:
            for _, c in s.cone(s.S): e.assume(c)
            e.assume(s.t > s.at(s.S, s.Ut))
        s.u = z3.If(s.v + s.EPS < s.MAX, s.v + s.EPS, s.MAX)
        s.l = z3.If(s.v - s.EPS > s.MIN, s.v - s.EPS, s.MIN)

    def at(s, S, k): return s.eng.get(S, k)
    def real(s, x): return R2(x) if z3.is_int(x) else x

    def cone(s, S):
        """what holds while points have been added since the last kept point"""
        a = lambda k: s.at(S, k)
        return [('both limits are at the time of the last point', AND(a(s.Ut) == a(s.Lt), a(s.Ut) > a(s.Pt))),
                ('the cone is not empty', s.real(a(s.Uv)) >= s.real(a(s.Lv)))]

    def slope(s, S, t, x): return (s.real(x) - s.real(s.at(S, s.Pv))) / R2(t - s.at(S, s.Pt)) / R2(s.K)

    def add(s):
        f = s.prog.func(s.rec, 'add')
        s.ck.under(f)
        S0 = s.S.copy()
        r = s.eng.invoke(f, s.this, [s.t, s.v], s.S)
        r = r != 0 if z3.is_int(r) else r
        return S0, r


def first(ck):
    s = T_(ck, 0)
    e = s.eng
    S0, r = s.add()
    a = lambda k: s.at(s.S, k)
    e.prove('the first point is not a transmission', NOT(r), s.S)
    e.prove('the first point is kept', AND(a(s.Pt) == s.t, a(s.Pv) == s.v), s.S)
    e.prove('one point has been seen', a(s.cnt) == 1, s.S)
    ck.cover(e, s.S)


def second(ck):
    s = T_(ck, 1)
    e = s.eng
    S0, r = s.add()
    a = lambda k: s.at(s.S, k)
    e.prove('the second point is not a transmission', NOT(r), s.S)
    e.prove('the kept point stays', AND(a(s.Pt) == s.at(S0, s.Pt), a(s.Pv) == s.at(S0, s.Pv)), s.S)
    e.prove('the cone is the clamped tolerance of the point', AND(a(s.Ut) == s.t, a(s.Lt) == s.t, s.real(a(s.Uv)) == R2(s.u), s.real(a(s.Lv)) == R2(s.l)), s.S)
    e.prove('the clamped tolerance holds the point', AND(s.l <= s.v, s.v <= s.u, s.u <= s.v + s.EPS, s.l >= s.v - s.EPS), s.S)
    for nm, g in s.cone(s.S): e.prove(nm, g, s.S)
    e.prove('a cone exists', a(s.cnt) == 2, s.S)
    ck.cover(e, s.S)


def step(ck):
    s = T_(ck, 2)
    e = s.eng
    S0, r = s.add()
    a, b = (lambda k: s.at(S0, k)), (lambda k: s.at(s.S, k))
    su, sl = s.slope(S0, a(s.Ut), a(s.Uv)), s.slope(S0, a(s.Lt), a(s.Lv))
    nu, nl = s.slope(S0, s.t, s.u), s.slope(S0, s.t, s.l)
    apart = OR(su < nl, sl > nu)
    e.prove('a transmission exactly when the cone and the tolerance of the point do not meet', r == apart, s.S)
    N = NOT(r)
    e.prove('no transmission: the kept point stays', IMP(N, AND(b(s.Pt) == a(s.Pt), b(s.Pv) == a(s.Pv))), s.S)
    e.prove('no transmission: the limits are at the time of the point', IMP(N, AND(b(s.Ut) == s.t, b(s.Lt) == s.t)), s.S)
    e.prove('no transmission: the upper slope is the smaller one', IMP(N, s.slope(S0, s.t, b(s.Uv)) == z3.If(su < nu, su, nu)), s.S)
    e.prove('no transmission: the lower slope is the greater one', IMP(N, s.slope(S0, s.t, b(s.Lv)) == z3.If(sl > nl, sl, nl)), s.S)
    e.prove('transmission: the kept point is transmitted', IMP(r, AND(b(s.Tt) == a(s.Pt), b(s.Tv) == a(s.Pv))), s.S)
    e.prove('transmission: the new kept point is at the time of the point before', IMP(r, b(s.Pt) == a(s.Ut)), s.S)
    e.prove('transmission: kept times increase', IMP(r, b(s.Pt) > a(s.Pt)), s.S)
    mid = (s.real(a(s.Uv)) + s.real(a(s.Lv))) / 2
    m = s.real(b(s.Pv))
    e.prove('transmission: the new kept value is in the middle of the cone up to rounding', IMP(r, AND(m - mid < 1, mid - m < 1)), s.S)
    e.prove('transmission: the cone restarts with the point', IMP(r, AND(b(s.Ut) == s.t, b(s.Lt) == s.t, s.real(b(s.Uv)) == R2(s.u), s.real(b(s.Lv)) == R2(s.l))), s.S)
    e.prove('the limits stay at the time of the last point', s.cone(s.S)[0][1], s.S)
    e.prove('transmission: the cone is not empty', IMP(r, s.cone(s.S)[1][1]), s.S)
    # in terms of slopes the order is that of the values (lemma)
    x, y, d, k = z3.Reals('x y d k')
    e.prove('lemma: at one time slopes are ordered as values', IMP(AND(d > 0, k > 0), (x / d / k <= y / d / k) == (x <= y)), State())
    e.assume(IMP(N, (s.slope(S0, s.t, b(s.Lv)) <= s.slope(S0, s.t, b(s.Uv))) == (s.real(b(s.Lv)) <= s.real(b(s.Uv)))))
    e.assume((sl <= su) == (s.real(a(s.Lv)) <= s.real(a(s.Uv))))
    e.assume((nl <= nu) == (s.l <= s.u))
    nsu, nsl = z3.If(su < nu, su, nu), z3.If(sl > nl, sl, nl)
    e.prove('lemma: the slopes kept stay ordered', IMP(AND(sl <= su, nl <= nu, NOT(apart)), nsl <= nsu), State())
    SU, SL, NU, NL, US, LS = z3.Reals('SU SL NU NL US LS')
    e.prove('no transmission: the cone is not empty', IMP(AND(N, s.slope(S0, s.t, b(s.Uv)) == nsu, s.slope(S0, s.t, b(s.Lv)) == nsl, nsl <= nsu), s.cone(s.S)[1][1]), s.S)
    e.prove('a cone exists', b(s.cnt) == 2, s.S)
    ck.cover(e, s.S)


def meaning(ck):
    """the slopes kept are the least upper and the greatest lower slope of the points: a line fits exactly when they are ordered"""
    s = T_(ck, 2)
    e = s.eng
    S = State()
    su, sl, nu, nl, iu, il, x = z3.Reals('su sl nu nl iu il x')
    mn, mx = z3.If(su < nu, su, nu), z3.If(sl > nl, sl, nl)
    e.prove('lemma: the least upper slope bounds every point', IMP(su <= iu, mn <= iu), S)
    e.prove('lemma: the greatest lower slope bounds every point', IMP(sl >= il, mx >= il), S)
    e.prove('lemma: the kept slopes are slopes of points', AND(OR(mn == su, mn == nu), OR(mx == sl, mx == nl)), S)
    e.prove('lemma: a line fits all points and the new one exactly when cone and tolerance meet', IMP(AND(sl <= su, nl <= nu), z3.Exists(x, AND(sl <= x, x <= su, nl <= x, x <= nu)) == NOT(OR(su < nl, sl > nu))), S)
    ck.cover(e, s.S)


def read(ck):
    s = T_(ck, 2)
    e = s.eng
    f = s.prog.func(s.rec, 'get_value_to_transmit')
    ck.under(f)
    t, v = cell(e, 'out_t', I32), cell(e, 'out_v', I32)
    S0 = s.S.copy()
    e.invoke(f, s.this, [LVs(t.alts), LVs(v.alts)], s.S)
    e.prove('the transmitted point is read back', AND(e.get(s.S, ('out_t', ())) == s.at(S0, s.Tt), e.get(s.S, ('out_v', ())) == s.at(S0, s.Tv)), s.S)
    frame(e, S0, s.S, s.this)
    ck.cover(e, s.S)


def new(ck):
    s = T_(ck, 0)
    e = s.eng
    S = State()
    construct(e, s.rec, s.this, [], S)
    e.prove('a new stream has no point', e.get(S, s.cnt) == 0, S)
    ck.cover(e, S)


def tolerance(ck):
    s = T_(ck, 2)
    e = s.eng
    # a point added since the last kept one: the cone lies inside its tolerance
    ti, vi = Int('t_i'), Int('v_i')
    S0 = s.S.copy()
    a = lambda k: s.at(S0, k)
    e.assume(AND(ti > a(s.Pt), ti <= a(s.Ut), vi >= s.MIN, vi <= s.MAX))
    ui = z3.If(vi + s.EPS < s.MAX, vi + s.EPS, s.MAX)
    li = z3.If(vi - s.EPS > s.MIN, vi - s.EPS, s.MIN)
    S0, r = s.add()
    b = lambda k: s.at(s.S, k)
    m = s.real(b(s.Pv))
    # in terms of differences: U = upper limit - kept, D = its distance in time, y, d those of the point
    U, L, D, y, z, d, k, M, V, eps = z3.Reals('U L D y z d k M V eps')
    S = State()
    e.prove('lemma: comparing slopes crosswise', IMP(AND(D > 0, d > 0, k > 0, U / D / k <= y / d / k), U * d <= y * D), S)
    e.prove('lemma: comparing slopes crosswise (lower)', IMP(AND(D > 0, d > 0, k > 0, L / D / k >= z / d / k), L * d >= z * D), S)
    h = AND(D > 0, d > 0, d <= D, U * d <= y * D, L * d >= z * D, L <= U, y <= V + eps, z >= V - eps)
    g = lambda M: AND(M * d / D - V <= eps, V - M * d / D <= eps)
    e.prove('lemma: a line inside the cone is within the tolerance', IMP(AND(h, L <= M, M <= U), g(M)), S)
    mid = (U + L) / 2
    e.prove('lemma: the line through the middle is within the tolerance', IMP(h, g(mid)), S)
    e.prove('lemma: rounding the kept value moves the line by less than one', IMP(AND(D > 0, d > 0, d <= D, M - mid < 1, mid - M < 1), AND(M * d / D - mid * d / D < 1, mid * d / D - M * d / D < 1)), S)
    e.prove('lemma: the clamped tolerance is inside the tolerance', AND(ui <= vi + s.EPS, li >= vi - s.EPS), S)
    e.prove('the new kept value is in the middle of the cone up to rounding', IMP(r, AND(m - (s.real(a(s.Uv)) + s.real(a(s.Lv))) / 2 < 1, (s.real(a(s.Uv)) + s.real(a(s.Lv))) / 2 - m < 1)), s.S)
    e.prove('the new kept point is at the time of the last point', IMP(r, AND(b(s.Pt) == a(s.Ut), a(s.Ut) == a(s.Lt))), s.S)
    # the definitions instantiate the lemmas
    e.prove('the point before is the transmitted one', IMP(r, AND(b(s.Tt) == a(s.Pt), b(s.Tv) == a(s.Pv))), s.S)
    ck.cover(e, s.S)


A = ['element and timestamp types are int (the code does not compile for floating element types)', 'times, values, tolerance, value range and spacing are below 2^28 in magnitude, values lie in the range, times increase',
     'the tolerance is not negative and time_unit_difference is at least 1']
base = dict(headers=[HDR], native='ltc.cpp', programs=[PROG], assumptions=A)
SPECS = {
    'C08': dict(base, tasks=[('constructor', new), ('first point', first), ('second point', second), ('later points', step), ('meaning of the cone', meaning), ('get_value_to_transmit', read)]),
    'C09': dict(base, tasks=[('constructor', new), ('first point', first), ('second point', second), ('later points', step), ('meaning of the cone', meaning), ('tolerance', tolerance)]),
}
