"""Contracts of src/naive_bayes.hpp (C16, C17)."""
from lib import *

HDR = 'naive_bayes.hpp'
PRE = '#include <cmath>\nusing namespace std; struct Fn{ static double log(double); static double sqrt(double); };'
INST = '''template class NaiveBayes<double, 3, 5, Fn>;
inline void use_(){ NaiveBayes<double, 3, 5, Fn> a; double x[5]; a.train(x, 0); a.predict(x); }'''
PROG = dict(header=HDR, inst=INST, pre=PRE)
R = z3.RealSort()


class NB:
    def __init__(s, ck):
        s.ck = ck
        s.prog = ck.prog(HDR, INST, pre=PRE)
        s.L, s.F = Int('label_count'), Int('feature_count')
        s.eng = e = ck.engine(s.prog, dict(label_count=s.L, feature_count=s.F))
        e.check_overflow = True
        e.assume(AND(s.L >= 1, s.F >= 1, s.L * s.F < 2 ** 31 - 1, s.L < 2 ** 31 - 1, s.F < 2 ** 31 - 1))
        s.rec = s.prog.rec('NaiveBayes')
        s.est = s.prog.rec('GaussianEstimator')
        s.W, s.M, s.V = (fld(s.prog, s.est, n, lambda t: t.k == 'float', e, i) for i, n in ((0, 'weight_sum'), (2, 'mean'), (1, 'variance_sum')))
        s.this = obj(e, s.rec)
        cn = fld(s.prog, s.rec, 'counters', lambda t: t.k == 'arr' and t.to.k == 'rec', e)
        s.kW, s.kM, s.kV = (('this', (cn, '[]', n)) for n in (s.W, s.M, s.V))
        s.lw = ('this', (fld(s.prog, s.rec, 'label_weights', lambda t: t.k == 'arr' and t.to.k == 'float', e), '[]'))
        s.tw = ('this', (fld(s.prog, s.rec, 'total_weights', lambda t: t.k == 'float', e),))
        s.S = State()
        # the estimator's step and density as functions of its state: defined by the contracts of its methods
        s.U = {n: z3.Function('step_' + n, R, R, R, R, R, R) for n in 'WMV'}
        s.PDF = z3.Function('density', R, R, R, R, R)
        s.LOG = z3.Function('LOG', R, R)
        e.models['log'] = lambda eng, args, st, node: s.LOG(eng.convert(eng.ev(args[0], st), None, FLT))
        e.models['sqrt'] = lambda eng, args, st, node: eng.ufun('sqrt', eng.convert(eng.ev(args[0], st), None, FLT))

    def index_facts(s):
        """(l, f) -> l * feature_count + f is a bijection onto the estimators (lemma, proved)"""
        e = s.eng
        l, f, F, L = Int('l_'), Int('f_'), s.F, s.L
        S = State()
        e.prove('lemma: an estimator index is inside the array', IMP(AND(0 <= l, l < L, 0 <= f, f < F, (l + 1) * F <= L * F), AND(l * F + f >= 0, l * F + f < L * F)), S)

    def est_contracts(s):
        """callers see train/density of one estimator as functions of its state and arguments"""
        e = s.eng
        tr, pd = s.prog.func(s.est, 'train'), s.prog.func(s.est, 'probability_density')

        def step(eng, this, vals, st):
            old = [eng.read_lv(this.f(n, FLT), st) for n in (s.W, s.M, s.V)]
            v = [eng.convert(x, None, FLT) for x in vals]
            for n, c in zip((s.W, s.M, s.V), 'WMV'): eng.write_lv(this.f(n, FLT), s.U[c](*old, *v), st)

        def dens(eng, this, vals, st):
            return s.PDF(*[eng.read_lv(this.f(n, FLT), st) for n in (s.W, s.M, s.V)], eng.convert(vals[0], None, FLT))
        e.contracts[tr.id] = Contract(effect=step)
        e.contracts[pd.id] = Contract(effect=dens)

    def feats(s):
        p = array(s.eng, 'features', FLT, s.F)
        return p


def est_train(ck):
    """one estimator: exact weighted moments are preserved"""
    s = NB(ck)
    e = s.eng
    f = s.prog.func(s.est, 'train')
    ck.under(f)
    this = obj(e, s.est, 'est')
    k = {n: ('est', (x,)) for n, x in zip('WMV', (s.W, s.M, s.V))}
    W, M, V = (e.get(s.S, k[n]) for n in 'WMV')
    # ghost: A = sum of w x, B = sum of w x^2 over the history
    A, B, x, w = z3.Reals('hist_wx hist_wxx x w')
    e.assume(w > 0)
    e.assume(OR(W > 0, AND(W == 0, A == 0, B == 0)))
    e.assume(IMP(W > 0, AND(M * W == A, V * W == B * W - A * A)))
    S0 = s.S.copy()
    e.invoke(f, this, [x, w], s.S)
    W1, M1, V1 = (e.get(s.S, k[n]) for n in 'WMV')
    A1, B1 = A + w * x, B + w * x * x
    e.prove('the weight is the total weight', W1 == W + w, s.S)
    e.prove('the mean is the weighted mean', M1 * (W + w) == A1, s.S)
    e.prove('the variance sum is the weighted sum of squared deviations', V1 * (W + w) == B1 * (W + w) - A1 * A1, s.S)
    ck.cover(e, s.S)
    # sum of w (x - mean)^2 expands to that expression
    m, n = z3.Reals('m n')
    e.prove('lemma: expansion of the sum of squared deviations', IMP(AND(n > 0, m * n == A1), (B1 - 2 * m * A1 + m * m * n) * n == B1 * n - A1 * A1), State())


def new(ck):
    s = NB(ck)
    e = s.eng
    j = qv('j')
    e.inv_hooks.append(lambda L: prefix(L, 'zero weight', lambda S, j: z3.Select(e.get(S, s.lw), j) == 0, hi=s.L))
    f = construct(e, s.rec, s.this, [z3.Real('smoothing')], s.S)
    if f: ck.under(f)
    for k, n in ((s.kW, s.L * s.F),):
        e.prove('new: no estimator has weight', FA(j, IMP(AND(j >= 0, j < n), z3.Select(e.get(s.S, k), j) == 0)), s.S)
    e.prove('new: no label has weight', FA(j, IMP(AND(j >= 0, j < s.L), z3.Select(e.get(s.S, s.lw), j) == 0)), s.S)
    e.prove('new: no weight', e.get(s.S, s.tw) == 0, s.S)
    ck.cover(e, s.S)


def train(default):
    def t(ck):
        s = NB(ck)
        e = s.eng
        s.est_contracts()
        f = s.prog.func(s.rec, 'train')
        ck.under(f)
        lab, w = Int('label'), z3.Real('w')
        e.assume(AND(lab >= 0, lab < s.L, w > 0))
        # consequences of 0 <= label < label_count (nonlinear, proved here)
        S = State()
        e.prove('lemma: rows are ordered', (lab + 1) * s.F <= s.L * s.F, S)
        e.prove('lemma: rows start inside', lab * s.F >= 0, S)
        b = Int('row')
        e.assume(AND(b == lab * s.F, b >= 0, b + s.F <= s.L * s.F, lab * s.F + s.F <= s.L * s.F))
        p = s.feats()
        S0 = s.S.copy()
        X = e.get(S0, ('features', ('[]',)))
        ks = (s.kW, s.kM, s.kV)
        old = lambda j: [z3.Select(e.get(S0, k), b + j) for k in ks]
        at = lambda S, k, j: z3.Select(e.get(S, k), b + j)
        def ww(): return w if not default else z3.RealVal(1)
        def cands(L):
            out = []
            for k, c in zip(ks, 'WMV'):
                out += prefix(L, f'{c} trained', lambda S, j, k=k, c=c: at(S, k, j) == s.U[c](*old(j), z3.Select(X, j), ww()), hi=s.F)
                out += prefix(L, f'{c} not yet', lambda S, j, k=k: at(S, k, j) == at(S0, k, j), hi=s.F)
                q = qv('q')
                out.append((f'{c} of other labels kept', lambda S, k=k: FA(q, IMP(OR(q < b, q >= b + s.F), z3.Select(e.get(S, k), q) == z3.Select(e.get(S0, k), q)), z3.Select(e.get(S, k), q))))
            return out
        e.inv_hooks.append(cands)
        r = e.invoke(f, s.this, [p, lab] if default is False and False else ([p, lab, w] if not default else [p, lab, e.convert(default_value(e, f, 2), None, FLT)]), s.S)
        j, q = qv('j'), qv('q')
        for k, c, nm in zip(ks, 'WMV', ('weight', 'mean', 'variance sum')):
            e.prove(f'every feature of the label is trained once: {nm}', FA(j, IMP(AND(j >= 0, j < s.F), at(s.S, k, j) == s.U[c](*old(j), z3.Select(X, j), ww()))), s.S)
            e.prove(f'other estimators are unchanged: {nm}', FA(q, IMP(OR(q < b, q >= b + s.F), z3.Select(e.get(s.S, k), q) == z3.Select(e.get(S0, k), q))), s.S)
        l = qv('l')
        e.prove('the label weight grows by the weight, the others stay', FA(l, IMP(AND(l >= 0, l < s.L), z3.Select(e.get(s.S, s.lw), l) == z3.Select(e.get(S0, s.lw), l) + z3.If(l == lab, ww(), z3.RealVal(0)))), s.S)
        e.prove('the total weight grows by the weight', e.get(s.S, s.tw) == e.get(S0, s.tw) + ww(), s.S)
        e.prove('training reports success', r, s.S)
        e.prove('the features are unchanged', unchanged(e, S0, s.S, ('features', ('[]',))), s.S)
        # the estimators of another label are among the others
        l2, f2 = Int('l2'), Int('f2')
        e.prove('lemma: another label has other estimators', IMP(AND(l2 >= 0, l2 < s.L, l2 != lab, f2 >= 0, f2 < s.F,
                IMP(l2 < lab, (l2 + 1) * s.F <= lab * s.F), IMP(l2 > lab, (lab + 1) * s.F <= l2 * s.F)), OR(l2 * s.F + f2 < b, l2 * s.F + f2 >= b + s.F)), s.S)
        ck.cover(e, s.S)
    return t


def default_value(e, f, n):
    p = f.params[n]
    init = next(iter(e.kids(p)), None) or e.default_arg(f, n)
    return e.ev(init, State())


def density(ck):
    s = NB(ck)
    e = s.eng
    f = s.prog.func(s.est, 'probability_density')
    ck.under(f)
    this = obj(e, s.est, 'est')
    W, M, V = (e.get(s.S, ('est', (n,))) for n in (s.W, s.M, s.V))
    x = z3.Real('x')
    e.assume(AND(W >= 0, V >= 0))
    S0 = s.S.copy()
    # definitions: variance and its root
    var, sd = z3.Reals('variance stdev')
    e.assume(var == z3.If(W > 1, V / (W - 1), z3.RealVal(0)))
    e.assume(AND(sd == e.ufun('sqrt', var), sd >= 0, sd * sd == var))
    e.prove('lemma: the variance is not negative', var >= 0, State())
    e.assume(var >= 0)
    r = e.invoke(f, this, [x], s.S)
    ex = e.ufun('exp', -((x - M) * (x - M) / (2 * sd * sd)))
    e.prove('no data: density zero', IMP(W <= 0, r == 0), s.S)
    e.prove('no spread: all mass at the mean', IMP(AND(W > 0, sd == 0), r == z3.If(x == M, z3.RealVal(1), z3.RealVal(0))), s.S)
    lo, hi = z3.Q(250662, 100000), z3.Q(250664, 100000)
    e.prove('the Gaussian density (constant within 1e-5 of the root of 2 pi)', IMP(AND(W > 0, sd > 0), AND(r * lo * sd <= ex, ex <= r * hi * sd)), s.S)
    frame(e, S0, s.S, this)
    ck.cover(e, s.S)


def predict(give):
    def t(ck):
        s = NB(ck)
        e = s.eng
        s.est_contracts()
        f = s.prog.func(s.rec, 'predict')
        ck.under(f)
        p = s.feats()
        S0 = s.S.copy()
        X = e.get(S0, ('features', ('[]',)))
        e.assume(e.get(S0, s.tw) > 0)
        row = z3.Function('row', z3.IntSort(), z3.IntSort())
        l, l2 = qv('l'), qv('l')
        # lemma (proved): rows of the estimator array
        a = Int('la')
        S = State()
        e.prove('lemma: rows are inside', IMP(AND(a >= 0, a < s.L), AND(a * s.F >= 0, (a + 1) * s.F <= s.L * s.F)), S)
        e.assume(FA(l, IMP(AND(l >= 0, l < s.L), AND(l * s.F >= 0, l * s.F + s.F <= s.L * s.F)), l * s.F))
        at = lambda k, i: z3.Select(e.get(S0, k), i)
        T_ = Sum(e, 'T', lambda lb, k: s.LOG(s.PDF(at(s.kW, lb * s.F + k), at(s.kM, lb * s.F + k), at(s.kV, lb * s.F + k), z3.Select(X, k))), 1)
        prior = lambda lb: s.LOG(z3.Select(e.get(S0, s.lw), lb) / e.get(S0, s.tw))
        score = lambda lb: prior(lb) + T_(lb, s.F)

        def arrays(L):
            for d, nm, root, ty in L.names():
                if ty.k == 'arr' and ty.to.k == 'float': yield nm, (root, ('[]',))
            if give: yield 'scores', ('scores', ('[]',))

        def cands(L):
            out = []
            for nm, key in arrays(L):
                out += prefix(L, f'{nm} is the score', lambda S, j, key=key: z3.Select(e.get(S, key), j) == score(j), hi=s.L)
                out.append((f'{nm} all scores', lambda S, key=key: (lambda j: FA(j, IMP(AND(j >= 0, j < s.L), z3.Select(e.get(S, key), j) == score(j))))(qv())))
                for n2, k2 in L.int_keys(None):
                    cellv = lambda S, key=key, k2=k2: z3.Select(e.get(S, key), L.val(S, k2))
                    for n3, k3 in L.int_keys(True):
                        out.append((f'{nm}[{n2}] partial {n3}', lambda S, c=cellv, k2=k2, k3=k3: c(S) == prior(L.val(S, k2)) + T_(L.val(S, k2), L.val(S, k3))))
            for n3, k3 in L.int_keys(True):
                for nr, kr in L.real_keys(True):
                    for n2, k2 in L.int_keys(False):
                        out.append((f'{nr} partial {n2},{n3}', lambda S, kr=kr, k2=k2, k3=k3: S.mem[kr] == prior(L.val(S, k2)) + T_(L.val(S, k2), L.val(S, k3))))
                        out.append((f'{nr} partial sum {n2},{n3}', lambda S, kr=kr, k2=k2, k3=k3: S.mem[kr] == T_(L.val(S, k2), L.val(S, k3))))
            for nm, key in L.int_keys(True):
                bst = lambda S, key=key: L.val(S, key)
                out += prefix(L, f'{nm} is a maximum', lambda S, j, b=bst: score(j) <= score(b(S)), hi=s.L)
                out += prefix(L, f'{nm} is the first maximum', lambda S, j, b=bst: IMP(j < b(S), score(j) < score(b(S))), hi=s.L)
                out += [(f'{rn} is the score of {nm}', lambda S, b=bst, rk=rk: S.mem[rk] == score(b(S))) for rn, rk in L.real_keys(True)]
            return out
        e.inv_hooks.append(cands)
        sc = array(e, 'scores', FLT, s.L) if give else NULL()
        r = e.invoke(f, s.this, [p, sc], s.S)
        j = qv('j')
        if give:
            e.prove('each score is the log prior plus the log densities', FA(j, IMP(AND(j >= 0, j < s.L), z3.Select(e.get(s.S, ('scores', ('[]',))), j) == score(j))), s.S)
        e.prove('the prediction is a label', AND(r >= 0, r < s.L), s.S)
        e.prove('no label has a greater score', FA(j, IMP(AND(j >= 0, j < s.L), score(j) <= score(r))), s.S)
        e.prove('it is the first such label', FA(j, IMP(AND(j >= 0, j < r), score(j) < score(r))), s.S)
        frame(e, S0, s.S, s.this)
        e.prove('the features are unchanged', unchanged(e, S0, s.S, ('features', ('[]',))), s.S)
        ck.cover(e, s.S)
    return t


A = ['label_count * feature_count fits in int', 'log and sqrt given by the user are the mathematical functions; exp is the library one', 'weights are positive, labels are valid']
base = dict(headers=[HDR], native='naive_bayes.cpp', programs=[PROG], assumptions=A)
SPECS = {
    'C16': dict(base, tasks=[('GaussianEstimator.train', est_train), ('constructor', new), ('train', train(False)), ('train default weight', train(True))]),
    'C17': dict(base, tasks=[('density', density), ('predict with scores', predict(True)), ('predict', predict(False))]),
}
