"""Vocabulary shared by the contracts in dv/specs: symbolic objects, frames, candidates."""
import itertools, os, re
import z3
from front import *
from engine import *

Int, Real, Bool = z3.Int, z3.Real, z3.Bool
IV = z3.IntVal
_q = itertools.count()


def qv(n='j', sort=None):
    return z3.Const(f'{n}?{next(_q)}', sort if sort is not None else z3.IntSort())


def FA(vs, body, *pats):
    vs = vs if isinstance(vs, (list, tuple)) else [vs]
    if z3.is_true(body): return body
    pats = [p for p in pats if patfor(p, vs)]
    return z3.ForAll(list(vs), body, patterns=list(pats)) if pats else z3.ForAll(list(vs), body)


def obj(eng, rec, root='this'):
    ty = T('rec', rec=rec, name=rec.name)
    for p, t in eng.leaves(ty): eng.leaf_ty[(root, p)] = t
    return LV(root, (), [], ty)


def array(eng, root, ty, dim=None, off=0):
    """a pointer to the first element of a fresh external array"""
    eng.leaf_ty[(root, ('[]',))] = ty
    if ty.k == 'rec' and ty.rec is not None:
        for p, t in eng.leaves(ty): eng.leaf_ty[(root, ('[]',) + p)] = t
    d = IV(dim) if isinstance(dim, int) else dim
    return Ptr.to(LV(root, ('[]',), [IV(off)], ty, d))


def cell(eng, root, ty):
    """a pointer to one fresh external object"""
    if ty.k == 'rec' and ty.rec is not None:
        for p, t in eng.leaves(ty): eng.leaf_ty[(root, p)] = t
    else: eng.leaf_ty[(root, ())] = ty
    return Ptr.to(LV(root, (), [], ty))


def fld(prog, rec, name, pred=None, eng=None, nth=0):
    """name of a field, tolerating a rename: by name, else the nth field whose type satisfies pred"""
    fs = rec.all_fields(prog)
    for f in fs:
        if f['name'] == name: return name
    if pred is not None:
        c = [f['name'] for f in fs if pred(prog.ty(f, eng, f))]
        if len(c) > nth: return c[nth]
    raise ExtractError(f'no field {name} in {rec.name}')


def keys_of(eng, lv):
    for p, t in eng.leaves(lv.ty): yield (lv.root, lv.path + p), t


def unchanged(eng, S0, S1, key, guard=None):
    """goal: memory at key is the same (at every index satisfying guard)"""
    try: a, b = eng.get(S0, key), eng.get(S1, key)
    except Unsupported: return Tt
    if same(a, b): return Tt
    if not isinstance(a, z3.ExprRef) or not isinstance(b, z3.ExprRef): raise Unsupported(f'pointer field {key} changed')
    n = key[1].count('[]')
    if n == 0: return a == b
    ix = [qv('x') for _ in range(n)]
    x, y = SEL(a, *ix), SEL(b, *ix)
    g = guard(*ix) if guard else Tt
    return FA(ix, IMP(g, y == x))


def frame(eng, S0, S1, lv, skip=(), label='unchanged'):
    for key, t in keys_of(eng, lv):
        if key[1] in skip or any(key[1][:len(s)] == s for s in skip): continue
        eng.prove(f"{label}: {'.'.join(k for k in key[1] if k != '[]')}", unchanged(eng, S0, S1, key), S1)


def const_fields(eng, rec, ctor_state, this):
    """values that the constructor gives to const scalar members: facts about every later call"""
    out = []
    for f in rec.all_fields(eng.prog):
        if 'const' in f['type']['qualType'].split() and eng.prog.ty(f, eng, f).k in ('int', 'bool', 'float'):
            k = (this.root, (f['name'],))
            if k in ctor_state.mem: out.append((k, ctor_state.mem[k]))
    return out


def prefix(L, label, pred, lo=None, pats=None, hi=None, vars=None):
    """candidates 'pred holds on the part of the range already visited', for every loop counter"""
    out = []
    lo = IV(0) if lo is None else lo
    for nm, key in L.int_keys(True):
        v = lambda S, key=key: L.val(S, key)
        def mk(rng):
            def f(S):
                j = qv()
                p = pred(S, j)
                if p is None: raise KeyError
                ps = pats(S, j) if pats else []
                return FA(j, IMP(rng(S, j), p), *ps)
            return f
        out.append((f'{label} on [0,{nm})', mk(lambda S, j, v=v: AND(j >= lo, j < v(S)))))
        out.append((f'{label} on [0,{nm}]', mk(lambda S, j, v=v: AND(j >= lo, j <= v(S)))))
        if hi is not None:
            out.append((f'{label} on ({nm},n)', mk(lambda S, j, v=v: AND(j > v(S), j < hi))))
            out.append((f'{label} on [{nm},n)', mk(lambda S, j, v=v: AND(j >= v(S), j < hi))))
            out.append((f'{label} on [n-{nm},n)', mk(lambda S, j, v=v: AND(j >= hi - v(S), j < hi))))
    return out


def whole(label, f):
    return (label, f)


def fn_model(F, rng=None):
    """model of a call through a function pointer: uninterpreted F(pointer, args...)"""
    def m(eng, fv, args, st, e):
        vs = []
        for a in args:
            v = eng.ev(a, st)
            if isinstance(v, Ptr): v = eng.read(v.alts, st)
            vs.append(v)
        r = F(fv, *vs)
        if rng: eng.facts.append(rng(r))
        return r
    return m


def construct(eng, rec, this, vals, st):
    """run the constructor taking these arguments, or the implicit default constructor"""
    c = [m for m in rec.methods if m.kind == 'CXXConstructorDecl' and m.body is not None and not m.node.get('isImplicit')
         and len(m.params) >= len(vals) and not (len(m.params) == 1 and rec.name in m.params[0]['type']['qualType'])]
    c = [m for m in c if all(any(x.get('kind', '').endswith(('Expr', 'Literal', 'Operator', 'Cleanups')) for x in eng.kids(p)) or p.get('init') for p in m.params[len(vals):])]
    if c:
        f = c[0]
        vals = list(vals)
        for n in range(len(vals), len(f.params)):
            init = next(iter(eng.kids(f.params[n])), None) or eng.default_arg(f, n)
            vals.append(eng.convert(eng.ev(init, st), eng.ety(init), eng.prog.ty(f.params[n], eng, f.params[n]), st))
        eng.invoke(f, this, vals, st)
        return f
    if vals: raise ExtractError(f'no constructor of {rec.name}')
    eng.default_fields(this, st)


class Draws:
    """a stream of results of an impure callback (random function): draw(k), k counted in ghost state"""
    def __init__(self, eng, lo=0, hi=1, sort=None, name='rnd', strict=False):
        self.U = z3.Function(name, z3.IntSort(), z3.RealSort() if sort is None else sort)
        self.key = ('ghost_' + name, ())
        self.lo, self.hi, self.strict = lo, hi, strict
        eng.leaf_ty[self.key] = T('int', 64, True)
        self.eng = eng

    def start(self, st):
        st.mem[self.key] = IV(0)

    def __call__(self, eng, args, st, node=None, *rest):
        k = eng.get(st, self.key)
        r = self.U(k)
        if self.lo is not None: eng.facts.append(r >= self.lo)
        if self.hi is not None: eng.facts.append(r < self.hi if self.strict else r <= self.hi)
        st.mem[self.key] = z3.simplify(k + 1)
        return r

    def fnptr(self, eng, fv, args, st, e): return self(eng, args, st, e)

    def n(self, st): return self.eng.get(st, self.key)


class Mul:
    """integer products as polynomials over uninterpreted monomials M(x, y), with the facts of multiplication needed"""
    def __init__(self, eng):
        I = z3.IntSort()
        self.M = z3.Function('M', I, I, I)
        x, y, c = qv('x'), qv('y'), qv('c')
        M = self.M
        for f in (FA([x, y], M(x, y) == M(y, x), M(x, y)),
                  FA([x, y], AND(IMP(AND(x >= 0, y >= 0), M(x, y) >= 0), IMP(AND(x >= 1, y >= 0), M(x, y) >= y)), M(x, y)),
                  FA([x, y, c], AND(IMP(AND(x < y, c >= 0), M(x, c) + c <= M(y, c)), IMP(y == x + 1, M(y, c) == M(x, c) + c)), z3.MultiPattern(M(x, c), M(y, c))),
                  FA([y], M(0, y) == 0, M(0, y)), FA([y], M(1, y) == y, M(1, y))): eng.assume(f)
        eng.mul = self
        self.num = z3.IntVal

    @staticmethod
    def isnum(t): return z3.is_int_value(t)
    @staticmethod
    def val(t): return t.as_long()

    def lin(self, t):
        """t as {id: (atom, coefficient)}, constant"""
        if self.isnum(t): return {}, self.val(t)
        k = t.decl().kind() if z3.is_app(t) else None
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            d, c = {}, 0
            for n, a in enumerate(t.children()):
                sg = -1 if k == z3.Z3_OP_UMINUS or (k == z3.Z3_OP_SUB and n) else 1
                e, f = self.lin(a)
                c += sg * f
                for i, (at, co) in e.items(): d[i] = (at, d.get(i, (at, 0))[1] + sg * co)
            return {i: v for i, v in d.items() if v[1]}, c
        if k == z3.Z3_OP_MUL:
            cs = [self.val(a) for a in t.children() if self.isnum(a)]
            vs = [a for a in t.children() if not self.isnum(a)]
            if len(vs) <= 1:
                m = 1
                for x in cs: m *= x
                if not vs: return {}, m
                e, f = self.lin(vs[0])
                return {i: (at, co * m) for i, (at, co) in e.items() if m}, f * m
        return {t.get_id(): (t, 1)}, 0

    def __call__(self, a, b):
        a = self.num(a) if isinstance(a, int) else a
        b = self.num(b) if isinstance(b, int) else b
        d, c = self.lin(a)
        e, f = self.lin(b)
        out = [self.num(c * f)] if c * f else []
        for at, co in d.values():
            if f: out.append(at * (co * f) if co * f != 1 else at)
        for at, co in e.values():
            if c: out.append(at * (co * c) if co * c != 1 else at)
        for x, p in d.values():
            for y, q in e.values():
                u, v = (x, y) if x.get_id() <= y.get_id() else (y, x)
                m = self.M(u, v)
                out.append(m if p * q == 1 else m * (p * q))
        if not out: return self.num(0)
        return out[0] if len(out) == 1 else z3.Sum(*out)


class RMul(Mul):
    """real products as polynomials over uninterpreted monomials (commutative, associative up to degree 3)"""
    def __init__(self, eng, assoc=True):
        R = z3.RealSort()
        self.M = M = z3.Function('RM', R, R, R)
        x, y, z = qv('x', R), qv('y', R), qv('z', R)
        for f in (FA([x, y], M(x, y) == M(y, x), M(x, y)), FA([x, y, z], M(M(x, y), z) == M(M(x, z), y), M(M(x, y), z)) if assoc else Tt,
                  FA([x], M(x, 0) == 0, M(x, 0)), FA([x], M(x, 1) == x, M(x, 1))): eng.assume(f)
        eng.rmul = self
        self.num = z3.RealVal

    @staticmethod
    def isnum(t): return z3.is_rational_value(t) or (z3.is_app_of(t, z3.Z3_OP_TO_REAL) and z3.is_rational_value(z3.simplify(t)))
    @staticmethod
    def val(t): return t.as_fraction() if z3.is_rational_value(t) else z3.simplify(t).as_fraction()


class Sum:
    """spec function S(p.., n) = sum of body(p.., k) for 0 <= k < n, unfolded once per occurrence"""
    def __init__(self, eng, name, body, nparams=0, sort=None, lo=0):
        sort = sort if sort is not None else z3.RealSort()
        self.n = nparams
        I = [z3.IntSort()] * (nparams + 1)
        self.f, self.g = z3.Function(name, *I, sort), z3.Function(name + '_', *I, sort)
        ps, n = [qv('p') for _ in range(nparams)], qv('n')
        zero = z3.RealVal(0) if sort == z3.RealSort() else IV(0)
        F, G = self.f(*ps, n), self.g(*ps, n)
        eng.assume(FA(ps + [n], F == z3.If(n <= lo, zero, self.g(*ps, n - 1) + body(*ps, n - 1)), F))
        eng.assume(FA(ps + [n], F == G, F))
        eng.assume(FA(ps + [n], IMP(n <= lo, G == zero), G))
        self.eng, self.name = eng, name

    def __call__(self, *a): return self.f(*[IV(x) if isinstance(x, int) else x for x in a])


def acc_keys(L, real=True):
    return L.real_keys(True) if real else [(n, k) for n, k in L.int_keys(True)]


def params(L, n):
    """tuples of loop-invariant local integers"""
    if n == 0: return [((), '')]
    out, seen = [], set()
    for nm, key in L.int_keys(False):
        v = L.val(L.pre, key)
        if v.get_id() in seen: continue
        seen.add(v.get_id())
        out.append((v, nm))
    return [(tuple(x[0] for x in t), ','.join(x[1] for x in t)) for t in itertools.product(out, repeat=n)]


def sum_cands(L, s, real=True, accs=None, pre_params=()):
    """accumulator == start + S(i) - S(start of i), for every accumulator, counter and direction"""
    out = []
    n = s.n - len(pre_params)
    accs = accs if accs is not None else [(nm, (lambda S, k=k: L.eng.get(S, k))) for nm, k in acc_keys(L, real)]
    for an, av in accs:
        a0 = av(L.pre)
        for inm, ik in L.int_keys(True):
            i0 = L.val(L.pre, ik)
            for pv, pn in params(L, n):
                pv = tuple(pre_params) + pv
                for c in (0, 1):
                    for sg in (1, -1):
                        def f(S, av=av, a0=a0, ik=ik, i0=i0, pv=pv, c=c, sg=sg):
                            i = L.val(S, ik)
                            d = s(*pv, i + c) - s(*pv, i0 + c)
                            return av(S) - a0 == (d if sg == 1 else -d)
                        out.append((f'{an} {"+" if sg == 1 else "-"}= {s.name}({pn},{inm}+{c})', f))
    return out


def scope_terms(L, all_ints=True):
    """integer terms fixed during the loop: locals of calling functions, and the element a method runs on"""
    out, seen = [], set()
    for fr in L.eng.frames:
        if isinstance(fr.this, LV):
            for t in fr.this.idx:
                if isinstance(t, z3.ExprRef) and t.get_id() not in seen:
                    seen.add(t.get_id())
                    out.append(('this', t))
        if fr is L.frame: continue
        for d in fr.order:
            root, ty = fr.locals[d]
            v = L.pre.mem.get((root, ()))
            if ty.k == 'int' and isinstance(v, z3.ExprRef) and v.get_id() not in seen and (root, ()) not in L.mods:
                seen.add(v.get_id())
                out.append((L.eng.prog.nodes.get(d, {}).get('name') or str(d), v))
    return out


def fixed_terms(L):
    """scope_terms and the unmodified integers of the function the loop is in"""
    out = scope_terms(L)
    seen = {t.get_id() for _, t in out}
    for nm, k in L.int_keys(False):
        v = L.val(L.pre, k)
        if v.get_id() not in seen:
            seen.add(v.get_id())
            out.append((nm, v))
    return out


def float_arrays(L, local=True, kind='float'):
    """keys of one-dimensional local arrays of every function on the stack"""
    out = []
    for fr in L.eng.frames:
        for d in fr.order:
            root, ty = fr.locals[d]
            if ty.k == 'arr' and ty.to.k == kind: out.append((L.eng.prog.nodes.get(d, {}).get('name') or str(d), (root, ('[]',))))
    return out
