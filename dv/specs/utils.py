"""Contracts of src/utils.hpp (C06, C07)."""
from lib import *

HDR = 'utils.hpp'
PRE = 'struct Fn{ static double rand_uniform(); static double log(double); static double exp(double); };'
INST = '''inline void use_(double* a, int* b, int n){
 Utils::pick_from_distribution<Fn>(a, n); Utils::turn_array_into_probability(a, n, 1.0); Utils::turn_array_into_probability(a, n); Utils::index_max(a, n); Utils::index_max(b, n);
 Utils::rand_exponential<Fn>(1.0); Utils::min(1, 2); Utils::min(1.0, 2.0); Utils::max(1, 2); Utils::max(1.0, 2.0); Utils::div_int<int>(1, 2);
 Utils::expm1<Fn>(1.0); Utils::shuffle<Fn>(a, n); Utils::shuffle<Fn>(b, n); Utils::abs(1.0); Utils::abs(1); Utils::round(1.0); Utils::round(1); }'''
PROG = dict(header=HDR, inst=INST, pre=PRE)
MAXI = 2 ** 31 - 1


class U:
    def __init__(s, ck, name, ty=None, npar=None):
        s.prog = ck.prog(HDR, INST, pre=PRE)
        s.eng = e = ck.engine(s.prog, {})
        s.rec = s.prog.rec('Utils')
        s.f = s.prog.func(s.rec, name, npar, (lambda f: ty in f.params[0]['type']['qualType']) if ty else None)
        ck.under(s.f)
        s.ty = FLT if ty and 'double' in ty else I32
        s.srt = z3.RealSort() if s.ty is FLT else z3.IntSort()
        s.S = State()
        s.n = Int('size')
        e.assume(AND(s.n >= 1, s.n <= MAXI))
        s.ak = ('arr', ('[]',))
        s.draw = Draws(e, 0, 1)
        s.draw.start(s.S)
        e.models['rand_uniform'] = s.draw
        e.models['log'] = lambda eng, args, st, node: eng.ufun('log', eng.ev(args[0], st))
        e.models['exp'] = lambda eng, args, st, node: eng.ufun('exp', eng.ev(args[0], st))
        s.ck = ck

    def arr(s, dim=True): return array(s.eng, 'arr', s.ty, s.n if dim else None)
    def A(s, S): return s.eng.get(S, s.ak)
    def run(s, *vals): return s.eng.invoke(s.f, None, list(vals), s.S)


def pick(ck):
    s = U(ck, 'pick_from_distribution')
    e = s.eng
    s.ty = FLT
    p = s.arr()
    S0 = s.S.copy()
    u = s.draw.U(0)
    k = qv('k')
    e.inv_hooks.append(lambda L: prefix(L, 'not greater than the draw', lambda S, j: z3.Select(s.A(S0), j) <= u, hi=s.n))
    r = s.run(p, s.n)
    e.assume(u < 1)
    A = s.A(S0)
    e.prove('the result is an index or the size', AND(r >= 0, r <= s.n), s.S)
    e.prove('the picked cumulative probability is greater than the draw', IMP(r < s.n, z3.Select(A, r) > u), s.S)
    e.prove('no earlier one is', FA(k, IMP(AND(k >= 0, k < r), z3.Select(A, k) <= u)), s.S)
    e.prove('exactly one draw', s.draw.n(s.S) == 1, s.S)
    e.prove('the distribution is unchanged', unchanged(e, S0, s.S, s.ak), s.S)
    # consequence: an index whose probability is zero is never picked
    prev = z3.If(r == 0, z3.RealVal(0), z3.Select(A, r - 1))
    e.prove('an index of zero probability is never picked', IMP(AND(r < s.n, r >= 0), z3.Select(A, r) > prev), s.S)
    ck.cover(e, s.S)


def turn(given):
    def t(ck):
        s = U(ck, 'turn_array_into_probability')
        e = s.eng
        s.ty = FLT
        p = s.arr()
        S0 = s.S.copy()
        A0 = s.A(S0)
        k = qv('k')
        P = Sum(e, 'P', lambda k: z3.Select(A0, k))
        g = Real('sum')
        default = given == 'default'
        e.prune = True
        if default: tot = P(s.n)
        elif given == 'negative':
            e.assume(g < 0)
            tot = P(s.n)
        else:
            e.assume(g >= 0)
            tot = g
        t_ = Real('total')
        e.assume(t_ == tot)
        e.assume(t_ > 0)
        # D(x) = x / total, kept uninterpreted: only its additivity is needed (stated where it is used)
        D = z3.Function('over_total', z3.RealSort(), z3.RealSort())
        plain = e.fdiv
        e.fdiv = lambda a, b, st: D(a) if e.check(st.pc, b == t_) else plain(a, b, st)
        Q = Sum(e, 'Q', lambda k: D(z3.Select(A0, k)))
        n = Int('nn')
        # lemma, by induction: Q(n) == P(n) / total
        S = State()
        x, y = z3.Reals('dx dy')
        e.prove('division by the total is additive', IMP(t_ != 0, AND((x + y) / t_ == x / t_ + y / t_, z3.RealVal(0) / t_ == 0)), S)
        e.prove('lemma base', IMP(D(z3.RealVal(0)) == 0, Q(0) == D(P(0))), S)
        nxt = z3.Select(A0, n)
        e.prove('lemma step', IMP(AND(n >= 0, Q(n) == D(P(n)), D(P(n) + nxt) == D(P(n)) + D(nxt)), Q(n + 1) == D(P(n + 1))), S)
        e.assume(FA(n, IMP(n >= 0, Q(n) == D(P(n))), Q(n)))
        goal = lambda S, j: z3.Select(s.A(S), j) == Q(j + 1)
        e.inv_hooks.append(lambda L: sum_cands(L, P) + sum_cands(L, Q) + prefix(L, 'cumulative', goal, hi=s.n)
                           + [(f'start kept', lambda S: z3.Select(s.A(S), 0) == Q(1))])
        vals = e.bind_args(s.f, [], s.S)[2:] if False else None
        if default:
            d = s.f.params[2]
            init = next((c for c in e.kids(d)), None) or e.default_arg(s.f, 2)
            g = e.convert(e.ev(init, s.S), None, FLT)
        s.run(p, s.n, g)
        e.prove('cumulative weight over the total', FA(k, IMP(AND(k >= 0, k < s.n), z3.Select(s.A(s.S), k) == D(P(k + 1)))), s.S)
        e.prove('nothing outside the array', FA(k, IMP(OR(k < 0, k >= s.n), z3.Select(s.A(s.S), k) == z3.Select(A0, k))), s.S)
        ck.cover(e, s.S)
    return t


def expo(ck):
    s = U(ck, 'rand_exponential')
    e = s.eng
    rate = Real('rate')
    e.assume(rate > 0)
    r = s.run(rate)
    u = s.draw.U(0)
    e.prove('-ln(1-u)/rate', r == -e.ufun('log', 1 - u) / rate, s.S)
    e.prove('exactly one draw', s.draw.n(s.S) == 1, s.S)
    ck.cover(e, s.S)


def imax(ty):
    def t(ck):
        s = U(ck, 'index_max', ty)
        e = s.eng
        p = s.arr()
        S0 = s.S.copy()
        A = s.A(S0)
        k = qv('k')
        def cands(L):
            out = []
            for nm, key in L.int_keys(True):
                b = lambda S, key=key: L.val(S, key)
                out += prefix(L, f'{nm} is a maximum', lambda S, j, b=b: z3.Select(A, j) <= z3.Select(A, b(S)), hi=s.n)
                out += prefix(L, f'{nm} is the first maximum', lambda S, j, b=b: IMP(j < b(S), z3.Select(A, j) < z3.Select(A, b(S))), hi=s.n)
                out += [(f'{rn} is the value at {nm}', lambda S, b=b, rk=rk: S.mem[rk] == z3.Select(A, b(S))) for rn, rk in L.real_keys(True)]
                out += [(f'{rn} is the value at {nm}', lambda S, b=b, rk=rk: S.mem[rk] == z3.Select(A, b(S))) for rn, rk in L.int_keys(True) if rk != key and s.ty is I32]
            return out
        e.inv_hooks.append(cands)
        r = s.run(p, s.n)
        e.prove('an index', AND(r >= 0, r < s.n), s.S)
        e.prove('no value is greater', FA(k, IMP(AND(k >= 0, k < s.n), z3.Select(A, k) <= z3.Select(A, r))), s.S)
        e.prove('the first one', FA(k, IMP(AND(k >= 0, k < r), z3.Select(A, k) < z3.Select(A, r))), s.S)
        e.prove('the array is unchanged', unchanged(e, S0, s.S, s.ak), s.S)
        ck.cover(e, s.S)
    return t


def shuffle(ty):
    def t(ck):
        s = U(ck, 'shuffle', ty)
        e = s.eng
        p = s.arr()
        A0 = s.A(s.S)
        # ghost: how many cells of [0,size) hold v, for an arbitrary value v
        v = z3.Const('v', s.srt)
        gk = ('ghost_count', ())
        e.leaf_ty[gk] = T('int', 64, True)
        s.S.mem[gk] = Int('count0')
        c0 = s.S.mem[gk]
        e.ghosts.append(dict(watch={s.ak}, key=gk, term=lambda st, key, idx: z3.If(AND(idx[0] >= 0, idx[0] < s.n, z3.Select(s.A(st), idx[0]) == v), IV(1), IV(0))))
        def cands(L):
            out = [('count of v kept', lambda S: e.get(S, gk) == c0)]
            return out
        e.inv_hooks.append(cands)
        k = qv('k')
        s.run(p, s.n)
        e.prove('the number of cells holding any value is unchanged', e.get(s.S, gk) == c0, s.S)
        e.prove('nothing outside the array', FA(k, IMP(OR(k < 0, k >= s.n), z3.Select(s.A(s.S), k) == z3.Select(A0, k))), s.S)
        ck.cover(e, s.S)
    return t


def minmax(ty):
    def t(ck):
        for nm in ('min', 'max', 'abs'):
            s = U(ck, nm, ty)
            e = s.eng
            e.context = f'{ck.label} {nm}'
            a, b = z3.Const('a', s.srt), z3.Const('b', s.srt)
            if s.ty is I32: e.assume(AND(a > -2 ** 31, a < 2 ** 31, b > -2 ** 31, b < 2 ** 31))
            if nm == 'abs':
                r = s.run(a)
                e.prove('absolute value', r == z3.If(a >= 0, a, -a), s.S)
            else:
                r = s.run(a, b)
                e.prove('exact', r == (z3.If(a <= b, a, b) if nm == 'min' else z3.If(a >= b, a, b)), s.S)
            ck.cover(e, s.S)
    return t


def rounding(ty):
    def t(ck):
        s = U(ck, 'round', ty)
        e = s.eng
        a = z3.Const('a', s.srt)
        x = z3.ToReal(a) if s.ty is I32 else a
        e.assume(AND(x >= -2 ** 31 + 2, x <= 2 ** 31 - 2))
        r = s.run(a)
        R = z3.ToReal(r)
        e.prove('nearest integer, halves away from zero', z3.If(x >= 0, AND(R <= x + z3.Q(1, 2), x + z3.Q(1, 2) < R + 1), AND(R >= x - z3.Q(1, 2), x - z3.Q(1, 2) > R - 1)), s.S)
        ck.cover(e, s.S)
    return t


def divint(ck):
    s = U(ck, 'div_int')
    e = s.eng
    a, b = Int('a'), Int('b')
    e.assume(AND(a > -2 ** 31, a < 2 ** 31, b > -2 ** 31, b < 2 ** 31, b != 0))
    r = s.run(a, b)
    ab = lambda x: z3.If(x < 0, -x, x)
    q = ab(a) / ab(b)
    e.prove('truncated quotient', r == z3.ToReal(z3.If((a < 0) != (b < 0), -q, q)), s.S)
    ck.cover(e, s.S)


base = dict(headers=[HDR], native='utils.cpp', programs=[PROG])
SPECS = {
    'C06': dict(base, tasks=[('pick_from_distribution', pick), ('turn_array_into_probability (given total)', turn('given')), ('turn_array_into_probability (negative total)', turn('negative')), ('turn_array_into_probability default', turn('default')), ('rand_exponential', expo)],
                assumptions=['uniform draws lie in [0,1)', 'weights are non-negative with a positive total, the rate is positive']),
    'C07': dict(base, tasks=[('index_max double', imax('double')), ('index_max int', imax('int')), ('shuffle double', shuffle('double')), ('shuffle int', shuffle('int')),
                             ('double', minmax('double')), ('int', minmax('int')), ('round double', rounding('double')), ('round int', rounding('int')), ('div_int', divint)],
                assumptions=['random draws lie in [0,1]', 'arguments stay two away from the ends of int']),
}
