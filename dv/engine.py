"""Verification-condition generator over clang's AST.

A symbolic execution with state merging; loops are cut by inductive invariants that are
inferred from templates (Houdini) and proved; calls are inlined, or replaced by a
contract when one is registered.  Nothing is unrolled unless the trip count is a literal
constant.  Every obligation is (facts, path condition) |= goal over unbounded integers
and reals, template parameters included."""
import itertools, time, os
import z3
from front import *

z3.set_param('smt.random_seed', 1)
Tt, Ff = z3.BoolVal(True), z3.BoolVal(False)


def AND(*a):
    a = [x for x in _flat(a) if not z3.is_true(x)]
    if not a: return Tt
    return a[0] if len(a) == 1 else z3.And(*a)


def OR(*a):
    a = [x for x in _flat(a) if not z3.is_false(x)]
    if not a: return Ff
    return a[0] if len(a) == 1 else z3.Or(*a)


def _flat(a):
    for x in a:
        if isinstance(x, (list, tuple)): yield from _flat(x)
        elif isinstance(x, bool): yield z3.BoolVal(x)
        else: yield x


def NOT(a):
    if z3.is_true(a): return Ff
    if z3.is_false(a): return Tt
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)


def IMP(a, b):
    if z3.is_true(a): return b
    if z3.is_false(a): return Tt
    return z3.Implies(a, b)


def same(a, b):
    if a is b: return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return len(a.alts) == len(b.alts) and all(g.eq(h) and lv_same(x, y) for (g, x), (h, y) in zip(a.alts, b.alts))
    if isinstance(a, LVs) and isinstance(b, LVs): return same(Ptr(a.alts), Ptr(b.alts))
    return False


def lv_same(x, y):
    if x is None or y is None: return x is y
    return x.root == y.root and x.path == y.path and len(x.idx) == len(y.idx) and all(i.eq(j) for i, j in zip(x.idx, y.idx))


def ITE(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if same(a, b): return a
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        r = []
        for cc, p in ((c, a), (NOT(c), b)):
            for g, l in p.alts:
                for n, (h, m) in enumerate(r):
                    if lv_same(l, m):
                        r[n] = (OR(h, AND(cc, g)), m)
                        break
                else:
                    # same array, different index: merge the index
                    for n, (h, m) in enumerate(r):
                        if l is not None and m is not None and l.root == m.root and l.path == m.path and l.path[-1:] == ('[]',) \
                                and all(i.eq(j) for i, j in zip(l.idx[:-1], m.idx[:-1])):
                            idx = list(m.idx)
                            idx[-1] = z3.If(AND(cc, g), l.idx[-1], m.idx[-1])
                            r[n] = (OR(h, AND(cc, g)), LV(m.root, m.path, idx, m.ty, m.dim))
                            break
                    else:
                        r.append((AND(cc, g), l))
        return Ptr(r)
    if isinstance(a, SVal) or isinstance(b, SVal):
        return SVal(a.ty, {k: ITE(c, a.leaf[k], b.leaf[k]) for k in a.leaf})
    if z3.is_array(a):
        sa, ba = _stores(a)
        sb, bb = _stores(b)
        da = {ba[i].get_id(): i for i in range(len(ba))}
        for j, t in enumerate(bb):
            if t.get_id() in da:
                i = da[t.get_id()]
                cur = t
                for (ix, v) in reversed(sa[:i]): cur = z3.Store(cur, ix, ITE(c, v, z3.Select(cur, ix)))
                for (ix, v) in reversed(sb[:j]): cur = z3.Store(cur, ix, ITE(c, z3.Select(cur, ix), v))
                return cur
        return z3.If(c, a, b)
    if z3.is_bool(a):
        if z3.is_true(a): return OR(c, b)
        if z3.is_false(a): return AND(NOT(c), b)
        if z3.is_true(b): return OR(NOT(c), a)
        if z3.is_false(b): return AND(c, a)
    return z3.If(c, a, b)


def _stores(a):
    """[(idx,val) outermost first], [terms a, a without the outermost store, ...]"""
    st, bs = [], [a]
    while z3.is_store(a) and len(st) < 64:
        st.append((a.arg(1), a.arg(2)))
        a = a.arg(0)
        bs.append(a)
    return st, bs


def patok(t):
    """can t be a trigger?"""
    if z3.is_quantifier(t): return False
    if z3.is_app(t):
        if t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT): return False
        return all(patok(c) for c in t.children())
    return True


def patfor(p, vs):
    """is p a trigger that binds all of vs?"""
    return patok(p) and (z3.is_quantifier(p) or all(mentions(p, {v.get_id()}) for v in vs)) and not any(p.eq(v) for v in vs)


def mentions(t, ids):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in ids: return True
        if i in seen: continue
        seen.add(i)
        todo += x.children()
    return False


def QF(vs, body, *pats):
    pats = [p for p in pats if patfor(p, vs)]
    return z3.ForAll(list(vs), body, patterns=pats) if pats else z3.ForAll(list(vs), body)


def SEL(a, *idx):
    for i in idx:
        i = z3.IntVal(i) if isinstance(i, int) else i
        while z3.is_store(a):
            if a.arg(1).eq(i): break
            d = z3.simplify(a.arg(1) - i)
            if z3.is_int_value(d) and d.as_long() != 0: a = a.arg(0)
            elif z3.is_int_value(d): break
            else: break
        if z3.is_store(a) and (a.arg(1).eq(i) or z3.is_int_value(z3.simplify(a.arg(1) - i)) and z3.simplify(a.arg(1) - i).as_long() == 0):
            a = a.arg(2)
        elif z3.is_const_array(a): a = a.arg(0)
        else: a = z3.Select(a, i)
    return a


class LV:
    __slots__ = ('root', 'path', 'idx', 'ty', 'dim')

    def __init__(self, root, path, idx, ty, dim=None):
        self.root, self.path, self.idx, self.ty, self.dim = root, tuple(path), list(idx), ty, dim

    def f(self, name, ty): return LV(self.root, self.path + (name,), self.idx, ty)

    def at(self, i, ty, dim=None):
        i = z3.IntVal(i) if isinstance(i, int) else i
        return LV(self.root, self.path + ('[]',), self.idx + [i], ty, dim)

    def shift(self, k):
        if self.path[-1:] != ('[]',): raise Unsupported('pointer arithmetic on a scalar object')
        return LV(self.root, self.path, self.idx[:-1] + [self.idx[-1] + k], self.ty, self.dim)

    @property
    def key(self): return (self.root, self.path)

    def __repr__(self): return f"LV({self.root}.{'.'.join(self.path)} {self.idx} : {self.ty})"


class Ptr:
    def __init__(self, alts): self.alts = [(g, l) for g, l in alts if not z3.is_false(g)]

    @staticmethod
    def to(lv): return Ptr([(Tt, lv)])

    def __repr__(self): return f"Ptr{self.alts}"


NULL = lambda: Ptr([(Tt, None)])


class LVs:
    """A bound reference (list of guarded lvalues)."""
    def __init__(self, alts): self.alts = alts


class SVal:
    """A record value: leaf path -> term (a nested array for embedded arrays)."""
    def __init__(self, ty, leaf): self.ty, self.leaf = ty, leaf


class State:
    __slots__ = ('mem', 'pc', 'ret')

    def __init__(self, mem=None, pc=None):
        self.mem, self.pc, self.ret = mem if mem is not None else {}, pc if pc is not None else [], None

    def copy(self):
        s = State(dict(self.mem), list(self.pc))
        s.ret = self.ret
        return s

    def fork(self, c):
        s = self.copy()
        if not z3.is_true(c): s.pc.append(c)
        return s


class Out:
    def __init__(self, nxt=None, brk=(), cont=(), ret=()):
        self.nxt, self.brk, self.cont, self.ret = nxt, list(brk), list(cont), list(ret)


class Obl:
    __slots__ = ('name', 'facts', 'pc', 'goal', 'status', 'by', 'secs', 'model', 'kind')

    def __init__(self, name, facts, pc, goal, kind):
        self.name, self.facts, self.pc, self.goal, self.kind = name, facts, pc, goal, kind
        self.status, self.by, self.secs, self.model = None, None, 0.0, None


class Frame:
    def __init__(self, func, this, path):
        self.func, self.this, self.path = func, this, path
        self.locals = {}     # decl id -> (root, type)
        self.order = []      # decl ids in declaration order
        self.id = None


class Contract:
    """requires/ensures/modifies used at call sites instead of the body."""
    def __init__(self, requires=None, modifies=None, ensures=None, result=None, effect=None):
        self.requires, self.modifies, self.ensures, self.result, self.effect = requires, modifies, ensures, result, effect


class Loop:
    """What candidate generators see."""
    def __init__(self, eng, pre, mods, frame, node, fn):
        self.eng, self.pre, self.mods, self.frame, self.node, self.fn = eng, pre, mods, frame, node, fn
        self.cond_bounds = []

    def names(self):
        for d in self.frame.order:
            root, ty = self.frame.locals[d]
            yield d, self.eng.prog.nodes.get(d, {}).get('name') or str(d), root, ty

    def int_keys(self, modified=None):
        out = []
        for d, nm, root, ty in self.names():
            key = (root, ())
            if ty.k == 'ref': continue
            if ty.k != 'int' and not (ty.k == 'ptr' and isinstance(self.pre.mem.get(key), z3.ExprRef)): continue
            if key not in self.pre.mem: continue
            if not isinstance(self.pre.mem[key], z3.ExprRef): continue
            m = key in self.mods
            if modified is None or m == modified: out.append((nm, key))
        # pointers that walk an array: their index
        for d, nm, root, ty in self.names():
            key = (root, ())
            p = self.pre.mem.get(key)
            if isinstance(p, Ptr) and len(p.alts) == 1 and p.alts[0][1] is not None and p.alts[0][1].path[-1:] == ('[]',):
                m = key in self.mods
                if modified is None or m == modified: out.append((nm + '#', key))
        for key in self.eng.hidden.get(self.frame.id, []):
            if key in self.pre.mem and (modified is None or (key in self.mods) == modified): out.append((key[0], key))
        return out

    def val(self, S, key):
        v = self.eng.get(S, key)
        if isinstance(v, Ptr): return v.alts[0][1].idx[-1]
        return v

    def real_keys(self, modified=True):
        out = []
        for d, nm, root, ty in self.names():
            key = (root, ())
            if ty.k == 'float' and key in self.pre.mem and (key in self.mods) == modified: out.append((nm, key))
        return out

    def bool_keys(self, modified=True):
        out = []
        for d, nm, root, ty in self.names():
            key = (root, ())
            if ty.k == 'bool' and key in self.pre.mem and (key in self.mods) == modified: out.append((nm, key))
        return out

    def arr_keys(self):
        return [k for k in sorted(self.mods, key=str) if '[]' in k[1] and isinstance(self.eng.get(self.pre, k), z3.ExprRef)]


class Engine:
    HINTS = None     # labels of the invariants that survived on an earlier tree: only these are tried first
    ALIVE = set()    # labels that survive in this run
    ATTEMPT = 1      # solver seed: an undecided task is tried again with others
    def __init__(self, prog, tparams=None, name='', cfg=None):
        self.prog, self.tp, self.name = prog, dict(tparams or {}), name
        self.facts, self.obls = [], []
        self.record = True
        self.base, self.leaf_ty = {}, {}
        self.heap = {}            # record name -> heap root
        self.embed = {}           # (root, path) of an array of heap records -> base address
        self.contracts = {}       # function id -> Contract
        self.models = {}          # callee name -> python model(eng, args, st, node)
        self.inv_hooks = []       # functions Loop -> iterable of (label, fn(State))
        self.measure_hooks = []
        self.ghosts = []
        self.bits = {}
        self.fresh_n = itertools.count()
        self.frame_n = itertools.count()
        self.frames = []
        self.hidden = {}
        self.keep = []
        self.seen_rng = set()
        self.memo = {}
        self.depth = 0
        self.context = ''
        self.stats = dict(queries=0, secs=0.0, houdini=0, loops=0, inlined=set(), contracted=set(), inv_proved=0)
        self.rl = 3_000_000
        self.auto_frame = True
        self.sol = None
        self.sol_facts = []
        self.ptr_hook = None      # (lv) -> Ptr for pointer fields
        self.static_vals = {}
        self.term_check = True
        self.max_unroll = 12
        self.const_params = {}
        self.assumptions = set()
        self.byte_hook = None
        self.heap_valid = None
        self.deadline = None
        self.sizeof = {}
        self.houdini_rl = None
        self.hook_labels = set()
        self.retry_max = 4
        self.extra_terms = []
        self.new_hook = None
        self.dyn_type = None
        self.limits = {}       # memory cell -> greatest value it may hold
        self.ext_models = {}
        self.solver_params = {}
        self.loop_select = None
        self.check_overflow = True
        self.prune = False
        self.mul = None           # products of unknowns as uninterpreted monomials
        self.unrolled = []        # (loop, iteration) of the loops being executed one by one
        self.mods_only = False    # only the memory a loop changes is wanted
        self.rmul = None          # the same for floating products
        self.families = {}        # kind of pointee -> (root, path, type): arrays of pointers into one array of arrays
        self.ptr_store = None     # (lv, v, st) -> True when a pointer field needs no store

    # ---------------------------------------------------------------- symbols
    def fresh(self, name, sort):
        return z3.Const(f"{name}!{next(self.fresh_n)}", sort)

    def sort_of(self, ty):
        if ty.k == 'int': return z3.IntSort()
        if ty.k == 'bool': return z3.BoolSort()
        if ty.k == 'float': return z3.RealSort()
        if ty.k == 'fn': return z3.IntSort()
        if ty.k == 'ptr' and self.is_heap(ty): return z3.IntSort()
        if ty.k == 'rec' and ty.rec is None: return z3.IntSort()
        raise Unsupported(f'no sort for type {ty}')

    def is_heap(self, ty):
        return ty.k == 'ptr' and ty.to.k == 'rec' and ty.to.rec is not None and ty.to.rec.name in self.heap

    def key_sort(self, key, ty):
        s = self.sort_of(ty)
        for _ in range(key[1].count('[]')): s = z3.ArraySort(z3.IntSort(), s)
        return s

    def get(self, st, key, ty=None):
        v = st.mem.get(key)
        if v is not None: return v
        if key not in self.base:
            ty = ty or self.leaf_ty.get(key)
            if ty is None: raise Unsupported(f'unknown memory {key}')
            if ty.k == 'ptr' and not self.is_heap(ty):
                if self.ptr_hook:
                    p = self.ptr_hook(LV(key[0], key[1], [], ty))
                    if p is not None: return p
                raise Unsupported(f'pointer read from unmodelled memory {key}')
            nm = f"{key[0]}.{'.'.join(key[1])}" if key[1] else f"{key[0]}"
            self.base[key] = self.fresh(nm, self.key_sort(key, ty))
        if ty is not None: self.leaf_ty.setdefault(key, ty)
        return self.base[key]

    def leaves(self, ty, path=()):
        """all scalar leaves of a type: (path, type)"""
        if ty.k == 'rec' and ty.rec is not None:
            for f in ty.rec.all_fields(self.prog):
                yield from self.leaves(self.prog.ty(f, self, f), path + (f['name'],))
        elif ty.k == 'arr':
            yield from self.leaves(ty.to, path + ('[]',))
        else:
            yield path, ty

    def dim_expr(self, txt):
        txt = txt.strip()
        if txt == '': return None
        if txt in self.tp: return self.tp[txt]
        env = dict(self.tp)
        for w in set(re.findall(r'[A-Za-z_]\w*', txt)):
            if w in env: continue
            v = self.static_const(w)
            if v is not None: env[w] = v
        if re.search(r'[^\w\s+\-*/()%]', txt): return None
        try:
            if '%' in txt or '/' in txt:
                if all(isinstance(env.get(w), (int, z3.ExprRef)) for w in re.findall(r'[A-Za-z_]\w*', txt)):
                    return eval(txt.replace('/', '//') if all(isinstance(env[w], int) for w in re.findall(r'[A-Za-z_]\w*', txt)) else txt, {}, env)
                return None
            v = eval(txt, {'__builtins__': {}}, env)
            return v
        except Exception:
            return None

    def static_const(self, name):
        if name in self.static_vals: return self.static_vals[name]
        for r in self.prog.recs:
            if r.pattern: continue
            for s in r.statics:
                if s.get('name') == name:
                    init = next((c for c in s.get('inner', []) if c and 'Comment' not in c.get('kind', '')), None)
                    if init is None: continue
                    ty = self.prog.ty(s, self, s)
                    if 'const' not in s['type']['qualType']: continue
                    self.static_vals[name] = None
                    st = State()
                    v = self.ev(init, st)
                    if isinstance(v, z3.ExprRef):
                        v = self.convert(v, ty, ty)
                        sv = z3.simplify(v)
                        if not (z3.is_int_value(sv) or z3.is_rational_value(sv)):
                            c = self.fresh('S_' + name, v.sort())
                            self.facts.append(c == v)
                            v = c
                        else: v = sv
                    self.static_vals[name] = v
                    return v
        return None

    # ---------------------------------------------------------------- memory
    def rng(self, term, ty):
        """type range of a value read from memory"""
        if ty.k != 'int' or not isinstance(term, z3.ExprRef): return
        if z3.is_int_value(term): return
        k = (term.get_id(), ty.w, ty.s)
        if k in self.seen_rng: return
        self.keep.append(term)
        self.seen_rng.add(k)
        lo = -(1 << (ty.w - 1)) if ty.s else 0
        hi = (1 << (ty.w - 1)) - 1 if ty.s else (1 << ty.w) - 1
        self.facts.append(z3.And(term >= lo, term <= hi))

    def read_lv(self, lv, st):
        ty = lv.ty
        if ty.k == 'ref': return self.read(self.deref_ref(lv, st), st)
        if ty.k == 'rec' and ty.rec is not None:
            leaf = {}
            for p, t in self.leaves(ty):
                key = (lv.root, lv.path + p)
                if t.k == 'ptr' and not self.is_heap(t):
                    leaf[p] = self.get(st, key, t)
                    continue
                a = self.get(st, key, t)
                leaf[p] = SEL(a, *lv.idx)
            return SVal(ty, leaf)
        if ty.k == 'arr':
            raise Unsupported('array rvalue')
        if ty.k == 'ptr' and lv.idx and ty.to.k in self.families and not self.is_heap(ty) and lv.path[-1:] == ('[]',):
            root, path, to = self.families[ty.to.k]
            n = path.count('[]')
            return Ptr.to(LV(root, path, [SEL(self.get(st, (lv.root, lv.path + (f'@{k}',)), I64), *lv.idx) for k in range(n)], to))
        a = self.get(st, lv.key, ty)
        if isinstance(a, (Ptr, LVs)): return a
        v = SEL(a, *lv.idx)
        self.rng(v, ty)
        if lv.key in self.limits: self.facts.append(v <= self.limits[lv.key])
        return v

    def read(self, alts, st):
        r = None
        for g, lv in alts:
            if lv is None: continue
            v = self.read_lv(lv, st)
            r = v if r is None else ITE(g, v, r)
        if r is None: raise Unsupported('read through a null pointer')
        return r

    def store(self, a, idx, v):
        if not idx: return v
        if len(idx) == 1: return z3.Store(a, idx[0], v)
        return z3.Store(a, idx[0], self.store(SEL(a, idx[0]), idx[1:], v))

    def write_lv(self, lv, v, st, g=Tt):
        ty = lv.ty
        if isinstance(v, SVal):
            for p, t in v.leaf.items():
                key = (lv.root, lv.path + p)
                tt = next(x for q, x in self.leaves(ty) if q == p)
                if isinstance(t, Ptr):
                    st.mem[key] = t
                    continue
                self._gh(key, lv.idx, st, g, lambda key=key, t=t, tt=tt: self._put(key, lv.idx, t, st, g, tt))
            return
        if isinstance(v, (Ptr, LVs)):
            if self.ptr_store and isinstance(v, Ptr) and self.ptr_store(lv, v, st): return
            if lv.idx and ty.k == 'ptr' and ty.to.k in self.families and isinstance(v, Ptr) and lv.path[-1:] == ('[]',):
                root, path, to = self.families[ty.to.k]
                if all(l is not None and (l.root, l.path) == (root, path) for _, l in v.alts):
                    for k in range(path.count('[]')):
                        x = v.alts[-1][1].idx[k]
                        for h, l in reversed(v.alts[:-1]): x = ITE(h, l.idx[k], x)
                        self._put((lv.root, lv.path + (f'@{k}',)), lv.idx, x, st, g, I64)
                    return
            if lv.idx:
                raise Unsupported('pointer stored in an array')
            old = st.mem.get(lv.key)
            st.mem[lv.key] = v if z3.is_true(g) or old is None else ITE(g, v, old)
            return
        self._gh(lv.key, lv.idx, st, g, lambda: self._put(lv.key, lv.idx, v, st, g, ty))

    def _put(self, key, idx, v, st, g, ty):
        a = self.get(st, key, ty)
        if isinstance(a, Ptr): raise Unsupported('type confusion on a pointer')
        if a.sort() == z3.RealSort() and z3.is_int(v): v = z3.ToReal(v)
        if not z3.is_true(g): v = ITE(g, v, SEL(a, *idx))
        st.mem[key] = self.store(a, idx, v)

    def _gh(self, key, idx, st, g, do):
        gs = [gh for gh in self.ghosts if key in gh['watch']]
        if not gs: return do()
        acts = [gh for gh in gs if 'act' in gh]      # ghost code run at the write
        gs = [gh for gh in gs if 'act' not in gh]
        before = [gh['term'](st, key, idx) for gh in gs]
        old = SEL(self.get(st, key), *idx) if acts else None
        do()
        for gh in acts: gh['act'](st, key, idx, old, SEL(self.get(st, key), *idx))
        for gh, b in zip(gs, before):
            a = gh['term'](st, key, idx)
            if same(a, b): continue
            cur = self.get(st, gh['key'])
            st.mem[gh['key']] = cur - b + a

    def write(self, alts, v, st):
        alts = [(g, l) for g, l in alts if l is not None]
        if not alts: raise Unsupported('write through a null pointer')
        for g, lv in alts:
            if lv.ty.k == 'ref': self.write(self.deref_ref(lv, st), v, st)
            else: self.write_lv(lv, v, st, g if len(alts) > 1 else Tt)

    def deref_ref(self, lv, st):
        b = st.mem.get(lv.key)
        if isinstance(b, LVs): return b.alts
        raise Unsupported(f'unbound reference {lv}')

    # ---------------------------------------------------------------- merge
    def merge(self, states):
        states = [s for s in states if s is not None]
        if not states: return None
        if len(states) == 1: return states[0]
        n = 0
        m = min(len(s.pc) for s in states)
        while n < m and all(s.pc[n].eq(states[0].pc[n]) for s in states): n += 1
        suf = [AND(*s.pc[n:]) for s in states]
        out = State()
        out.pc = list(states[0].pc[:n])
        if len(states) == 2 and NOT(suf[0]).eq(suf[1]): pass
        else:
            d = z3.simplify(OR(*suf)) if all(len(s.pc) - n <= 1 for s in states) else OR(*suf)
            if not z3.is_true(d): out.pc.append(d)
        keys = set()
        for s in states: keys |= s.mem.keys()
        for k in keys:
            vs = []
            missing = False
            for s in states:
                if k in s.mem: vs.append(s.mem[k])
                elif not self.outer(k, None):
                    missing = True
                    break
                elif k in self.base or k in self.leaf_ty and not (self.leaf_ty[k].k == 'ptr' and not self.is_heap(self.leaf_ty[k])):
                    vs.append(self.get(s, k))
                else:
                    missing = True
                    break
            if missing: continue      # declared in one branch only: out of scope afterwards
            r = vs[-1]
            for g, v in zip(reversed(suf[:-1]), reversed(vs[:-1])): r = ITE(g, v, r)
            out.mem[k] = r
        rs = [s.ret for s in states]
        if any(r is not None for r in rs):
            r = rs[-1]
            for g, v in zip(reversed(suf[:-1]), reversed(rs[:-1])):
                if v is None or r is None:
                    r = v if r is None else r
                elif isinstance(v, LVs) or isinstance(r, LVs):
                    r = LVs(ITE(g, Ptr(v.alts), Ptr(r.alts)).alts)
                else: r = ITE(g, v, r)
            out.ret = r
        return out

    def become(self, st, new):
        st.mem, st.pc, st.ret = new.mem, new.pc, new.ret

    # ---------------------------------------------------------------- solver
    def _sync(self):
        n = 0
        m = min(len(self.sol_facts), len(self.facts))
        while n < m and self.sol_facts[n] is self.facts[n]: n += 1
        if self.sol is None or n < len(self.sol_facts):
            self.sol = z3.SimpleSolver()
            self.sol.set('mbqi', False)
            self.sol.set('auto_config', False)
            self.sol.set('random_seed', Engine.ATTEMPT)
            for k, v in self.solver_params.items(): self.sol.set(k, v)
            n = 0
            self.sol_facts = []
        for f in self.facts[n:]:
            self.sol.add(f)
            self.sol_facts.append(f)

    def check(self, pc, goal, rl=None):
        """True when facts, pc |= goal"""
        if z3.is_true(goal): return True
        t = time.time()
        if self.deadline and t > self.deadline: raise Unsupported('time budget exhausted')
        self._sync()
        self.sol.set('rlimit', int(rl or self.rl))
        self.sol.set('timeout', 20000)
        self.sol.push()
        for p in pc: self.sol.add(p)
        self.sol.add(z3.Not(goal))
        r = self.sol.check()
        self.sol.pop()
        self.stats['queries'] += 1
        self.stats['secs'] += time.time() - t
        return r == z3.unsat

    def second(self, pc, goal, rl):
        """one more try without relevancy filtering"""
        t = time.time()
        if self.deadline and t > self.deadline: raise Unsupported('time budget exhausted')
        sol = z3.SimpleSolver()
        for k, v in (('mbqi', False), ('auto_config', False), ('relevancy', 0), ('random_seed', Engine.ATTEMPT + 1), ('rlimit', int(rl)), ('timeout', 3000)): sol.set(k, v)
        for f in self.facts: sol.add(f)
        for p in pc: sol.add(p)
        sol.add(z3.Not(goal))
        r = sol.check()
        self.stats['queries'] += 1
        self.stats['secs'] += time.time() - t
        return r == z3.unsat

    def recheck(self, pc, goal, rl):
        """a second opinion: fresh solvers, other seeds"""
        t = time.time()
        for seed in (Engine.ATTEMPT + 1, Engine.ATTEMPT + 2):
            if self.deadline and time.time() > self.deadline: raise Unsupported('time budget exhausted')
            sol = z3.SimpleSolver()
            for k, v in (('mbqi', False), ('auto_config', False), ('random_seed', seed), ('rlimit', 2 * int(rl)), ('timeout', 8000)): sol.set(k, v)
            for f in self.facts: sol.add(f)
            for p in pc: sol.add(p)
            sol.add(z3.Not(goal))
            r = sol.check()
            self.stats['queries'] += 1
            if r != z3.unknown: break
            if 'incomplete' in sol.reason_unknown(): pass
        self.stats['secs'] += time.time() - t
        return r == z3.unsat

    def prove(self, name, goal, st, kind='post'):
        if not self.record: return
        if z3.is_true(goal):
            return
        if z3.is_and(goal) and goal.num_args() <= 60:
            for n, c in enumerate(goal.children()): self.prove(f'{name}.{n}' if goal.num_args() > 1 else name, c, st, kind)
            return
        o = Obl((self.context + ': ' if self.context else '') + name, list(self.facts), list(st.pc), goal, kind)
        self.obls.append(o)

    def soft(self, goal, st, rl=3_000_000):
        """an intermediate fact: used from here on if it can be proved, forgotten otherwise"""
        r = self.check(st.pc, goal, rl)
        if not r: return False
        self.facts.append(IMP(AND(*st.pc), goal))
        return True

    def safety(self, name, goal, st):
        """an obligation whose truth may then be assumed"""
        g = z3.simplify(goal)
        if z3.is_true(g): return
        if self.record:
            self.prove(name, goal, st, 'safety')
        self.facts.append(IMP(AND(*st.pc), goal))

    def assume(self, f, st=None):
        self.facts.append(IMP(AND(*st.pc), f) if st is not None else f)

    # ---------------------------------------------------------------- conversions
    def wrap(self, v, ty, st=None):
        """reduce a mathematical integer into the type"""
        if ty.k != 'int' or z3.is_bool(v): return v
        s = z3.simplify(v)
        m = 1 << ty.w
        lo = -(m >> 1) if ty.s else 0
        hi = (m >> 1) - 1 if ty.s else m - 1
        if z3.is_int_value(s):
            x = s.as_long()
            if lo <= x <= hi: return s
            x %= m
            if ty.s and x > hi: x -= m
            return z3.IntVal(x)
        k = ('w', v.get_id(), ty.w, ty.s)
        pc = st.pc if st is not None else []
        if self.check(pc, z3.And(v >= lo, v <= hi), 400_000): return v
        r = z3.If(z3.And(v >= lo, v <= hi), v, (v - lo) % m + lo)
        self.keep.append(v)
        return r

    def convert(self, v, fr, to, st=None):
        """value conversion between scalar types"""
        if isinstance(v, (Ptr, LVs, SVal)): 
            if to.k == 'bool' and isinstance(v, Ptr): return self.nonnull(v)
            return v
        if to.k == 'bool':
            if z3.is_bool(v): return v
            return v != 0
        if z3.is_bool(v): v = z3.If(v, z3.IntVal(1), z3.IntVal(0)) if not (z3.is_true(v) or z3.is_false(v)) else z3.IntVal(1 if z3.is_true(v) else 0)
        if to.k == 'float': return z3.ToReal(v) if z3.is_int(v) else v
        if to.k == 'int':
            if z3.is_real(v):
                s = z3.simplify(v)
                if z3.is_rational_value(s):
                    import math
                    fr_ = s.as_fraction()
                    return z3.IntVal(int(fr_))
                self.assumptions.add('floating-point to integer conversions stay in the integer type')
                if z3.is_app_of(v, z3.Z3_OP_TO_REAL): return v.arg(0)
                if st is not None and self.check(st.pc, v >= 0, 400_000): return z3.ToInt(v)
                return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            if fr is not None and fr.k == 'int':
                # widening (or same type) needs no wrap
                if (fr.s == to.s and fr.w <= to.w) or (not fr.s and to.s and fr.w < to.w): return v
            return self.wrap(v, to, st)
        return v

    def nonnull(self, p):
        return NOT(OR(*[g for g, l in p.alts if l is None])) if any(l is None for g, l in p.alts) else Tt

    def truth(self, v):
        if isinstance(v, Ptr): return self.nonnull(v)
        if z3.is_bool(v): return v
        return v != 0

    # ---------------------------------------------------------------- bits
    def bits_of(self, t, w=8):
        """list of Bool, LSB first, of a non-negative integer below 2^w"""
        s = z3.simplify(t)
        if z3.is_int_value(s):
            x = s.as_long()
            return [z3.BoolVal(bool((x >> k) & 1)) for k in range(w)]
        if t.get_id() in self.bits:
            b = self.bits[t.get_id()]
            return b + [Ff] * (w - len(b)) if len(b) < w else b
        if z3.is_app_of(t, z3.Z3_OP_ITE) and z3.is_int_value(t.arg(1)) and z3.is_int_value(t.arg(2)):
            b1, b2 = self.bits_of(t.arg(1), w), self.bits_of(t.arg(2), w)
            b = [ITE(t.arg(0), x, y) for x, y in zip(b1, b2)]
            self._setbits(t, b)
            return b
        b = [self.fresh('bit', z3.BoolSort()) for _ in range(w)]
        self.facts.append(t == self.unbits(b))
        self._setbits(t, b)
        return b

    def _setbits(self, t, b):
        self.keep.append(t)
        self.bits[t.get_id()] = b

    def unbits(self, b):
        r = []
        for k, x in enumerate(b):
            if z3.is_false(x): continue
            r.append(z3.IntVal(1 << k) if z3.is_true(x) else z3.If(x, z3.IntVal(1 << k), z3.IntVal(0)))
        if not r: return z3.IntVal(0)
        return r[0] if len(r) == 1 else z3.Sum(*r)

    def bitop(self, op, a, b, ty, st):
        sa, sb = z3.simplify(a), z3.simplify(b)
        ca = sa.as_long() if z3.is_int_value(sa) else None
        cb = sb.as_long() if z3.is_int_value(sb) else None
        if ca is not None and cb is not None:
            m = (1 << ty.w) - 1
            x, y = ca & m, cb & m
            r = {'&': x & y, '|': x | y, '^': x ^ y}[op]
            if ty.s and r >> (ty.w - 1): r -= 1 << ty.w
            return z3.IntVal(r)
        if op == '&':
            if ca is not None: a, b, ca, cb = b, a, cb, ca
            if cb is not None:
                if cb < 0: return a - self.bitop('&', a, z3.IntVal(~cb), ty, st)
                if cb == 0: return z3.IntVal(0)
                if (cb & (cb + 1)) == 0: 
                    if a.get_id() in self.bits: return self._frombits(self.bits[a.get_id()][:cb.bit_length()])
                    return a % (cb + 1)
                if a.get_id() in self.bits:
                    bb = self.bits[a.get_id()]
                    return self._frombits([x if (cb >> k) & 1 else Ff for k, x in enumerate(bb)])
                if cb & (cb - 1) == 0:
                    return z3.If((a / cb) % 2 == 1, z3.IntVal(cb), z3.IntVal(0))
        if op == '|':
            if ca == 0: return b
            if cb == 0: return a
            if cb is not None and cb > 0 and a.get_id() not in self.bits: return a + cb - self.bitop('&', a, b, ty, st)
            if ca is not None and ca > 0 and b.get_id() not in self.bits: return b + ca - self.bitop('&', a, b, ty, st)
        if op == '^' and ty.w >= 32 and a.get_id() not in self.bits and b.get_id() not in self.bits:
            m = self.models.get('^')
            if m: return m(self, a, b, st)
        w = 8
        for x in (a, b):
            if not self.check(st.pc, z3.And(x >= 0, x < 256), 400_000):
                raise Unsupported(f'bitwise {op} on a wide value')
        x, y = self.bits_of(a, w), self.bits_of(b, w)
        f = {'&': AND, '|': OR, '^': lambda p, q: z3.Xor(p, q)}[op]
        return self._frombits([z3.simplify(f(p, q)) for p, q in zip(x, y)])

    def _frombits(self, b):
        t = self.unbits(b)
        if not z3.is_int_value(t): self._setbits(t, b)
        return t

    # ---------------------------------------------------------------- expressions
    def kids(self, e): return [c for c in e.get('inner', []) if c and 'Comment' not in c.get('kind', '')]

    def ety(self, e): return self.prog.ty(e, self)

    def ev(self, e, st):
        """rvalue"""
        m = getattr(self, 'ev_' + e['kind'], None)
        if m is None:
            if e.get('valueCategory') == 'lvalue': return self.read(self.lv(e, st), st)
            raise Unsupported(f"expression {e['kind']}")
        return m(e, st)

    def lv(self, e, st):
        """lvalue: list of (guard, LV)"""
        k = e['kind']
        ks = self.kids(e)
        if k in ('ParenExpr', 'ConstantExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'SubstNonTypeTemplateParmExpr', 'FullExpr'):
            return self.lv(ks[-1], st)
        if k in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXConstCastExpr', 'CXXFunctionalCastExpr'):
            if e.get('castKind') in ('DerivedToBase', 'UncheckedDerivedToBase') and self.heap: return self.to_base(self.lv(ks[0], st), self.ety(e))
            if e.get('castKind') in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'LValueBitCast', 'BaseToDerived'):
                return self.lv(ks[0], st)
            return self.tmp(self.ev(e, st), self.ety(e), st)
        if k == 'DeclRefExpr':
            d = e['referencedDecl']
            for fr in self.frames[-1:]:
                if d['id'] in fr.locals:
                    root, ty = fr.locals[d['id']]
                    l = LV(root, (), [], ty)
                    if ty.k == 'ref': return self.deref_ref(l, st)
                    return [(Tt, l)]
            return self.global_lv(d, st)
        if k == 'MemberExpr':
            base = ks[0]
            rd = e.get('referencedMemberDecl')
            dn = self.prog.nodes.get(rd, {})
            if dn.get('kind') == 'VarDecl': return self.global_lv(dn, st)
            if e.get('isArrow'): alts = self.deref(self.ev(base, st), st, self.ety(base).to, e)
            else:
                if base.get('valueCategory') == 'lvalue' or base['kind'] in ('MaterializeTemporaryExpr',): alts = self.lv(base, st)
                else: alts = self.tmp(self.ev(base, st), self.ety(base), st)
            nm = e['name']
            fty = self.field_ty(dn, e)
            return [(g, l.f(nm, fty)) for g, l in alts if l is not None]
        if k == 'ArraySubscriptExpr':
            a, b = ks
            if self.ety(b).k in ('ptr', 'arr'): a, b = b, a
            p = self.ev(a, st)
            i = self.ev(b, st)
            return self.index(p, i, st, e)
        if k == 'UnaryOperator':
            op = e['opcode']
            if op == '*': return self.deref(self.ev(ks[0], st), st, None, e)
            if op in ('++', '--'):
                self.ev(e, st)
                return self.lv(ks[0], st)
            if op in ('__extension__',): return self.lv(ks[0], st)
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            if e['opcode'] == ',':
                self.ev_discard(ks[0], st)
                return self.lv(ks[1], st)
            self.ev(e, st)
            return self.lv(ks[0], st)
        if k == 'ConditionalOperator':
            c = self.truth(self.ev(ks[0], st))
            a, b = self.branch2(c, st, lambda s: self.lv(ks[1], s), lambda s: self.lv(ks[2], s))
            if a is None: return b
            if b is None: return a
            return ITE(c, Ptr(a), Ptr(b)).alts
        if k == 'CXXThisExpr':
            return [(Tt, self.frames[-1].this)]
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            r = self.call(e, st)
            if isinstance(r, LVs): return r.alts
            return self.tmp(r, self.ety(e), st)
        if k in ('MaterializeTemporaryExpr',):
            v = self.ev(ks[0], st)
            return self.tmp(v, self.ety(ks[0]), st)
        if k in ('InitListExpr', 'CXXTemporaryObjectExpr', 'CXXConstructExpr'):
            return self.tmp(self.ev(e, st), self.ety(e), st)
        if k == 'StringLiteral': return [(Tt, LV('str', (), [], T('arr', to=U8)))]
        if k == 'PredefinedExpr': return [(Tt, LV('str', (), [], T('arr', to=U8)))]
        raise Unsupported(f'lvalue {k}')

    def tmp(self, v, ty, st):
        root = f'tmp{next(self.frame_n)}'
        l = LV(root, (), [], ty)
        self.leaf_ty[(root, ())] = ty
        self.write_lv(l, v, st)
        return [(Tt, l)]

    def field_ty(self, dn, e):
        if dn: return self.prog.ty(dn, self, dn)
        return self.ety(e)

    def global_lv(self, d, st):
        n = self.prog.vars.get(d['id']) or self.prog.nodes.get(d['id']) or d
        nm = n.get('name')
        ty = self.prog.ty(n, self, n)
        root = f'g:{nm}'
        self.leaf_ty.setdefault((root, ()), ty)
        if ty.scalar and (root, ()) not in st.mem and (root, ()) not in self.base and 'const' in n['type']['qualType']:
            v = self.static_const(nm)
            if v is None:
                init = next((c for c in self.kids(n)), None)
                if init is not None: v = self.convert(self.ev(init, State()), None, ty)
            if v is not None: self.base[(root, ())] = v if isinstance(v, z3.ExprRef) else z3.IntVal(v)
        return [(Tt, LV(root, (), [], ty))]

    def deref(self, p, st, ty=None, e=None):
        if isinstance(p, LVs): return p.alts
        if isinstance(p, Ptr):
            nn = self.nonnull(p)
            if not z3.is_true(nn): self.safety(f'non-null pointer{self.where(e)}', nn, st)
            out = []
            for g, l in p.alts:
                if l is None: continue
                if l.dim is not None: self.bounds(l, st, e, g)
                out.append((g, l))
            return out
        if isinstance(p, z3.ExprRef):   # heap address
            t = ty or (self.ety(e).to if self.ety(e).k == 'ptr' else self.ety(e))
            if t.k != 'rec' or t.rec is None or t.rec.name not in self.heap: raise Unsupported(f'dereference of an integer as {t}')
            self.safety(f'non-null pointer{self.where(e)}', p != 0, st)
            if self.heap_valid: self.safety(f'valid pointer{self.where(e)}', self.heap_valid(t.rec, p, st), st)
            return [(Tt, LV(self.heap[t.rec.name], ('[]',), [p], t))]
        raise Unsupported('dereference')

    def where(self, e):
        f = self.frames[-1].func.name if self.frames else ''
        return f' in {f}'

    def bounds(self, l, st, e=None, g=Tt):
        d = l.dim
        if d is None or l.path[-1:] != ('[]',): return
        i = l.idx[-1]
        nm = next((x for x in reversed(l.path) if x != '[]'), str(l.root))
        goal = AND(i >= 0, i < d)
        self.safety(f'index inside {nm}{self.where(e)}', IMP(g, goal), st)

    def index(self, p, i, st, e):
        if isinstance(p, z3.ExprRef):
            t = self.ety(self.kids(e)[0])
            return [(Tt, LV(self.heap[t.to.rec.name], ('[]',), [p + i], t.to))]
        out = []
        nn = self.nonnull(p)
        if not z3.is_true(nn): self.safety(f'non-null pointer{self.where(e)}', nn, st)
        for g, l in p.alts:
            if l is None: continue
            s = z3.simplify(i) if isinstance(i, z3.ExprRef) else z3.IntVal(i)
            if l.path[-1:] == ('[]',):
                l2 = l if (z3.is_int_value(s) and s.as_long() == 0) else LV(l.root, l.path, l.idx[:-1] + [s if z3.is_int_value(l.idx[-1]) and l.idx[-1].as_long() == 0 and z3.is_int_value(s) else (i if z3.is_int_value(l.idx[-1]) and l.idx[-1].as_long() == 0 else l.idx[-1] + i)], l.ty, l.dim)
                self.bounds(l2, st, e, g)
                l2 = self.embed_lv(l2)
            elif z3.is_int_value(s) and s.as_long() == 0: l2 = l
            else: raise Unsupported('index of a non-array pointer')
            out.append((g, l2))
        return out

    def embed_lv(self, l):
        if l.path[-1:] == ('[]',) and l.ty.k == 'rec' and l.ty.rec is not None and l.ty.rec.name in self.heap:
            b = self.embed.get((l.root, l.path[:-1]))
            if b is not None: return LV(self.heap[l.ty.rec.name], ('[]',), [b + l.idx[-1]], l.ty)
        return l

    # literals and simple nodes
    def ev_IntegerLiteral(self, e, st): return z3.IntVal(int(e['value']))

    def ev_FloatingLiteral(self, e, st):
        from fractions import Fraction
        v = e['value']
        try: return z3.RealVal(str(Fraction(float(v)).limit_denominator(10 ** 18)) if 'e' in v.lower() else str(Fraction(v)))
        except (ValueError, OverflowError): return self.inf()

    def inf(self):
        if not hasattr(self, '_inf'): self._inf = z3.Real('INFINITY')
        return self._inf

    def ev_CXXBoolLiteralExpr(self, e, st): return z3.BoolVal(bool(e['value']))
    def ev_CharacterLiteral(self, e, st): return z3.IntVal(int(e['value']))
    def ev_CXXNullPtrLiteralExpr(self, e, st): return NULL()
    def ev_GNUNullExpr(self, e, st): return NULL()
    def ev_ParenExpr(self, e, st): return self.ev(self.kids(e)[-1], st)
    def ev_ConstantExpr(self, e, st): return self.ev(self.kids(e)[-1], st)
    def ev_ExprWithCleanups(self, e, st): return self.ev(self.kids(e)[-1], st)
    def ev_MaterializeTemporaryExpr(self, e, st): return self.ev(self.kids(e)[-1], st)
    def ev_CXXBindTemporaryExpr(self, e, st): return self.ev(self.kids(e)[-1], st)
    def ev_CXXThisExpr(self, e, st):
        this = self.frames[-1].this
        if this is None: raise Unsupported('this outside a method')
        if this.ty.k == 'rec' and this.ty.rec is not None and this.ty.rec.name in self.heap and this.root == self.heap[this.ty.rec.name]:
            return this.idx[0]
        return Ptr.to(this)

    def ev_SubstNonTypeTemplateParmExpr(self, e, st):
        ks = self.kids(e)
        nm = ks[0].get('name') if ks[0].get('kind') == 'NonTypeTemplateParmDecl' else None
        if nm in self.tp:
            v = self.tp[nm]
            if isinstance(v, bool): return z3.BoolVal(v)
            if isinstance(v, int): return z3.IntVal(v)
            return v
        return self.ev(ks[-1], st)

    def ev_CXXDefaultArgExpr(self, e, st): raise Unsupported('default argument out of context')

    def ev_ImplicitValueInitExpr(self, e, st): return self.zero(self.ety(e))
    def ev_CXXScalarValueInitExpr(self, e, st): return self.zero(self.ety(e))

    def zero(self, ty):
        if ty.k == 'bool': return Ff
        if ty.k == 'float': return z3.RealVal(0)
        if ty.k == 'int' or ty.k == 'fn': return z3.IntVal(0)
        if ty.k == 'ptr': return z3.IntVal(0) if self.is_heap(ty) else NULL()
        if ty.k == 'rec' and ty.rec is None: return z3.IntVal(0)
        if ty.k == 'rec':
            leaf = {}
            for p, t in self.leaves(ty):
                z = self.zero(t)
                for _ in range(p.count('[]')): z = z3.K(z3.IntSort(), z)
                leaf[p] = z
            return SVal(ty, leaf)
        raise Unsupported(f'zero of {ty}')

    def ev_UnaryExprOrTypeTraitExpr(self, e, st):
        if e.get('name') != 'sizeof': raise Unsupported(e.get('name'))
        if 'argType' in e: ty = self.prog.ty(e['argType'], self)
        else: ty = self.ety(self.kids(e)[0])
        return self.size_of(ty)

    def size_of(self, ty):
        if ty.k == 'int': return z3.IntVal(ty.w // 8)
        if ty.k == 'bool': return z3.IntVal(1)
        if ty.k == 'float': return z3.IntVal(ty.w // 8)
        if ty.k in ('ptr', 'fn'): return z3.IntVal(8)
        if ty.k == 'arr' and ty.dim is not None: return self.size_of(ty.to) * ty.dim
        if ty.k == 'rec':
            nm = ty.rec.name if ty.rec else ty.name
            if nm not in self.sizeof:
                v = z3.Int('sizeof_' + nm)
                self.sizeof[nm] = v
                self.facts.insert(0, z3.And(v >= 1, v < (1 << 30)))
            return self.sizeof[nm]
        raise Unsupported(f'sizeof {ty}')

    def ev_StringLiteral(self, e, st): return Ptr.to(LV('str', ('[]',), [z3.IntVal(0)], U8))

    def ev_LambdaExpr(self, e, st): raise Unsupported('lambda')

    def ev_InitListExpr(self, e, st):
        ty = self.ety(e)
        ks = self.kids(e)
        if ty.k == 'rec' and ty.rec is not None:
            leaf = dict(self.zero(ty).leaf)
            for f, c in zip(ty.rec.all_fields(self.prog), ks):
                fty = self.prog.ty(f, self, f)
                v = self.ev(c, st)
                if isinstance(v, SVal):
                    for p, t in v.leaf.items(): leaf[(f['name'],) + p] = t
                else: leaf[(f['name'],)] = v
            return SVal(ty, leaf)
        if ty.k == 'arr':
            # value of a whole array: SVal with '[]' leaves
            leaf = {}
            for p, t in self.leaves(ty):
                z = self.zero(t)
                for _ in range(p.count('[]')): z = z3.K(z3.IntSort(), z)
                leaf[p] = z
            if 'array_filler' in e:
                ks = [c for c in e['array_filler'] if c and c.get('kind') != 'ImplicitValueInitExpr']
                rest = [c for c in e.get('inner', []) if c]
                ks = ks if ks else rest
            for n, c in enumerate(ks):
                v = self.ev(c, st)
                if isinstance(v, SVal):
                    for p, t in v.leaf.items(): leaf[('[]',) + p] = z3.Store(leaf[('[]',) + p], n, t)
                elif isinstance(v, Ptr): raise Unsupported('array of pointers')
                else: leaf[('[]',)] = z3.Store(leaf[('[]',)], n, self.convert(v, self.ety(c), ty.to, st))
            return SVal(ty, leaf)
        if len(ks) == 1: return self.ev(ks[0], st)
        if not ks: return self.zero(ty)
        raise Unsupported('initialiser list')

    def ev_DeclRefExpr(self, e, st):
        d = e['referencedDecl']
        if d.get('kind') == 'EnumConstantDecl': return z3.IntVal(self.prog.enums.get(d['id'], 0))
        if d.get('kind') in ('FunctionDecl', 'CXXMethodDecl'): return ('func', d)
        if d.get('kind') == 'NonTypeTemplateParmDecl' and d.get('name') in self.tp: return self.tp[d['name']]
        return self.read(self.lv(e, st), st)

    def ev_MemberExpr(self, e, st):
        dn = self.prog.nodes.get(e.get('referencedMemberDecl'), {})
        if dn.get('kind') == 'EnumConstantDecl': return z3.IntVal(self.prog.enums.get(dn['id'], 0))
        return self.read(self.lv(e, st), st)

    def ev_ArraySubscriptExpr(self, e, st): return self.read(self.lv(e, st), st)

    # casts
    def ev_cast(self, e, st):
        ck = e.get('castKind')
        s = self.kids(e)[-1]
        if ck == 'LValueToRValue': return self.read(self.lv(s, st), st)
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase') and self.heap and self.ety(e).k == 'ptr' and e.get('valueCategory') != 'lvalue':
            v = self.ev(s, st)
            return Ptr(self.to_base(v.alts, self.ety(e).to)) if isinstance(v, Ptr) else v
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'UserDefinedConversion', 'ConstructorConversion'):
            if e.get('valueCategory') == 'lvalue' or s.get('valueCategory') == 'lvalue':
                if self.ety(s).k in ('arr',): return self.decay(self.lv(s, st))
                return self.read(self.lv(s, st), st)
            return self.ev(s, st)
        if ck == 'ArrayToPointerDecay':
            if s['kind'] in ('StringLiteral', 'PredefinedExpr') or s.get('opcode') == '__extension__':
                return self.ev_StringLiteral(s, st)
            return self.decay(self.lv(s, st))
        if ck == 'FunctionToPointerDecay': return self.ev(s, st)
        if ck == 'NullToPointer':
            t = self.ety(e)
            return z3.IntVal(0) if self.is_heap(t) else (z3.IntVal(0) if t.k == 'fn' else NULL())
        if ck == 'ToVoid':
            self.ev_discard(s, st)
            return z3.IntVal(0)
        if ck in ('BitCast', 'LValueBitCast', 'ReinterpretMemberPointer'):
            v = self.ev(s, st)
            to = self.ety(e)
            if isinstance(v, z3.ExprRef): return v
            if self.byte_hook:
                r = self.byte_hook(v, to, st, e)
                if r is not None: return r
            if to.k == 'ptr' and (to.to.k == 'void' or self.ety(s).to.k == 'void'): return v
            raise Unsupported(f'reinterpretation {self.ety(s)} -> {to}')
        v = self.ev(s, st)
        fr, to = self.ety(s), self.ety(e)
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'IntegralToBoolean',
                  'FloatingToBoolean', 'PointerToBoolean', 'BooleanToSignedIntegral'):
            if ck == 'FloatingCast' and to.w < fr.w: self.assumptions.add('narrowing double to float is treated as exact')
            if ck == 'PointerToBoolean' and isinstance(v, z3.ExprRef): return v != 0
            if ck == 'FloatingToIntegral': pass
            return self.convert(v, fr, to, st)
        if ck == 'Dependent' or ck is None: return v
        raise Unsupported(f'cast {ck}')

    ev_ImplicitCastExpr = ev_CXXStaticCastExpr = ev_CStyleCastExpr = ev_CXXFunctionalCastExpr = ev_CXXReinterpretCastExpr = ev_CXXConstCastExpr = ev_cast

    def to_base(self, alts, t):
        """an object of the heap seen as one of its base class: same address, the part of the heap with the fields of the base"""
        if t.k != 'rec' or t.rec is None or t.rec.name not in self.heap: return alts
        return [(g, LV(self.heap[t.rec.name], l.path, l.idx, t) if l is not None and l.root in self.heap.values() and l.path == ('[]',) else l) for g, l in alts]

    def ev_CXXDynamicCastExpr(self, e, st):
        t, v = self.ety(e), self.ev(self.kids(e)[-1], st)
        if not self.is_heap(t) or not self.dyn_type or not isinstance(v, z3.ExprRef): raise Unsupported('dynamic_cast')
        return z3.If(AND(v != 0, self.dyn_type(t.to.rec, v, st)), v, z3.IntVal(0))

    def decay(self, alts):
        out = []
        for g, l in alts:
            if l.ty.k == 'arr': out.append((g, l.at(0, l.ty.to, l.ty.dim)))
            else: out.append((g, l))
        return Ptr(out)

    # operators
    def ev_UnaryOperator(self, e, st):
        op = e['opcode']
        s = self.kids(e)[0]
        ty = self.ety(e)
        if op == '!': return NOT(self.truth(self.ev(s, st)))
        if op == '-':
            v = -self.ev(s, st)
            return self.wrap(v, ty, st) if ty.k == 'int' and not ty.s else v
        if op == '+': return self.ev(s, st)
        if op == '~':
            v = self.ev(s, st)
            return self.wrap(-v - 1, ty, st) if not ty.s else -v - 1
        if op == '*': return self.read(self.deref(self.ev(s, st), st, None, e), st)
        if op == '&':
            alts = self.lv(s, st)
            if len(alts) == 1:
                l = alts[0][1]
                if l.ty.k == 'rec' and l.ty.rec is not None and l.ty.rec.name in self.heap and l.root == self.heap[l.ty.rec.name]:
                    return l.idx[0]
            return Ptr(alts)
        if op in ('++', '--'):
            alts = self.lv(s, st)
            old = self.read(alts, st)
            k = 1 if op == '++' else -1
            if isinstance(old, Ptr): new = self.padd(old, z3.IntVal(k))
            elif z3.is_bool(old): raise Unsupported('bool increment')
            else:
                new = old + k
                t = self.ety(s)
                if t.k == 'int' and (not t.s or t.w < 32): new = self.wrap(new, t, st)
                elif t.k == 'int': self.overflow(new, t, st, e)
            self.write(alts, new, st)
            return old if e.get('isPostfix') else new
        if op == '__extension__': return self.ev(s, st)
        raise Unsupported(f'unary {op}')

    def padd(self, p, k):
        return Ptr([(g, l.shift(k) if l is not None else None) for g, l in p.alts])

    def arith(self, op, a, b, ty, st, e=None):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == '+':
                if isinstance(b, Ptr): a, b = b, a
                return self.padd(a, b)
            if op == '-' and not isinstance(b, Ptr): return self.padd(a, -b)
            if op == '-' and len(a.alts) == len(b.alts) == 1:
                x, y = a.alts[0][1], b.alts[0][1]
                if x is not None and y is not None and x.root == y.root and x.path == y.path: return x.idx[-1] - y.idx[-1]
            raise Unsupported('pointer arithmetic')
        if ty.k == 'float':
            if z3.is_int(a): a = z3.ToReal(a)
            if z3.is_int(b): b = z3.ToReal(b)
            if op == '+': return a + b
            if op == '-': return a - b
            if op == '*':
                return self.rmul(a, b) if self.rmul else a * b
            if op == '/': return self.fdiv(a, b, st)
            raise Unsupported(f'floating {op}')
        if z3.is_bool(a): a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if z3.is_bool(b): b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if op in ('+', '-', '*'):
            if op == '*' and self.mul and not z3.is_int_value(z3.simplify(a)) and not z3.is_int_value(z3.simplify(b)): r = self.mul(a, b)
            else: r = a + b if op == '+' else a - b if op == '-' else a * b
            s = z3.simplify(r)
            if z3.is_int_value(s): r = s
            if ty.k == 'int' and not ty.s: r = self.wrap(r, ty, st)
            elif ty.k == 'int': self.overflow(r, ty, st, e)
            return r
        if op in ('/', '%'):
            self.safety(f'non-zero divisor{self.where(e)}', b != 0, st)
            sb = z3.simplify(b)
            nn = not ty.s or self.check(st.pc, z3.And(a >= 0, b > 0), 400_000)
            if nn:
                if op == '/' and self.mul and not z3.is_int_value(sb):
                    # a == q*b + r with the product as a polynomial
                    q = self.idiv(a, b)
                    r = a - self.mul(q, b)
                    self.facts.append(IMP(AND(*st.pc, a >= 0, b > 0), AND(q >= 0, r >= 0, r < b)))
                    return q
                if op == '/': return a / b
                if z3.is_int_value(sb) and sb.as_long() == 1: return z3.IntVal(0)
                return a % b
            q = z3.If(z3.And(a >= 0, b > 0), a / b, z3.If(z3.And(a < 0, b > 0), -((-a) / b), z3.If(z3.And(a >= 0, b < 0), -(a / (-b)), (-a) / (-b))))
            return q if op == '/' else a - b * q
        if op in ('&', '|', '^'): return self.bitop(op, a, b, ty, st)
        if op in ('<<', '>>'):
            s = z3.simplify(b)
            if not z3.is_int_value(s): raise Unsupported('shift by a variable amount')
            n = s.as_long()
            self.safety('shift amount in range', z3.BoolVal(0 <= n < ty.w), st)
            if a.get_id() in self.bits:
                bb = self.bits[a.get_id()]
                return self._frombits(([Ff] * n + bb) if op == '<<' else bb[n:])
            if z3.is_app_of(a, z3.Z3_OP_ITE) and z3.is_int_value(a.arg(1)) and z3.is_int_value(a.arg(2)):
                bb = self.bits_of(a)
                return self._frombits(([Ff] * n + bb) if op == '<<' else bb[n:])
            if op == '<<':
                r = z3.simplify(a * (1 << n))
                return self.wrap(r, ty, st) if not ty.s else r
            return a / (1 << n)
        raise Unsupported(f'operator {op}')

    def idiv(self, a, b):
        if not hasattr(self, '_idiv'): self._idiv = z3.Function('IDIV', z3.IntSort(), z3.IntSort(), z3.IntSort())
        return self._idiv(z3.simplify(a), z3.simplify(b))

    def overflow(self, r, ty, st, e=None):
        if not self.check_overflow:
            self.assumptions.add('signed integer arithmetic does not overflow')
            return
        if ty.s and ty.k == 'int' and not z3.is_int_value(r):
            self.safety(f'no signed overflow{self.where(e)}', AND(r >= -(1 << (ty.w - 1)), r < (1 << (ty.w - 1))), st)

    def fdiv(self, a, b, st): return a / b

    def compare(self, op, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
                p, x = (a, b) if isinstance(a, Ptr) else (b, a)
                if len(p.alts) == 1 and p.alts[0][1] is None: eq = (x == 0)
                else: raise Unsupported('pointer comparison')
                return eq if op == '==' else NOT(eq)
            eqs = []
            for g, x in a.alts:
                for h, y in b.alts:
                    if x is None and y is None: eqs.append(AND(g, h))
                    elif x is None or y is None: continue
                    elif x.root == y.root and x.path == y.path:
                        if op in ('<', '>', '<=', '>='):
                            i, j = x.idx[-1], y.idx[-1]
                            eqs.append(AND(g, h, {'<': i < j, '>': i > j, '<=': i <= j, '>=': i >= j}[op]))
                        else: eqs.append(AND(g, h, *[i == j for i, j in zip(x.idx, y.idx)]))
            r = OR(*eqs)
            return NOT(r) if op == '!=' else r
        if isinstance(a, tuple) or isinstance(b, tuple): raise Unsupported('function comparison')
        if z3.is_bool(a) and z3.is_bool(b): return {'==': a == b, '!=': a != b}.get(op) if op in ('==', '!=') else self.compare(op, z3.If(a, z3.IntVal(1), z3.IntVal(0)), z3.If(b, z3.IntVal(1), z3.IntVal(0)))
        if z3.is_bool(a): a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if z3.is_bool(b): b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if z3.is_real(a) and z3.is_int(b): b = z3.ToReal(b)
        if z3.is_real(b) and z3.is_int(a): a = z3.ToReal(a)
        return {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b}[op]()

    def pure(self, e):
        k = e.get('kind')
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CompoundAssignOperator', 'CXXNewExpr', 'CXXConstructExpr'): return False
        if k == 'BinaryOperator' and e['opcode'] == '=': return False
        if k == 'UnaryOperator' and e['opcode'] in ('++', '--'): return False
        return all(self.pure(c) for c in self.kids(e))

    def branch2(self, c, st, fa, fb):
        """evaluate fa under c and fb under not c, merging side effects into st"""
        c_s = z3.simplify(c)
        if z3.is_true(c_s): return fa(st), None
        if z3.is_false(c_s): return None, fb(st)
        sa, sb = st.fork(c), st.fork(NOT(c))
        ra, rb = fa(sa), fb(sb)
        self.become(st, self.merge([sa, sb]))
        return ra, rb

    def ev_BinaryOperator(self, e, st):
        op = e['opcode']
        a, b = self.kids(e)
        if op == '=': return self.assign(a, b, st)
        if op == ',':
            self.ev_discard(a, st)
            return self.ev(b, st)
        if op in ('&&', '||'):
            x = self.truth(self.ev(a, st))
            cc = x if op == '&&' else NOT(x)
            if self.pure(b):
                s2 = st.fork(cc)
                y = self.truth(self.ev(b, s2))
            else:
                y, _ = self.branch2(cc, st, lambda s: self.truth(self.ev(b, s)), lambda s: None)
                if y is None: y = Tt if op == '&&' else Ff
            return AND(x, y) if op == '&&' else OR(x, y)
        x = self.ev(a, st)
        y = self.ev(b, st)
        if op in ('==', '!=', '<', '>', '<=', '>='): return self.compare(op, x, y)
        return self.arith(op, x, y, self.ety(e), st, e)

    def assign(self, a, b, st):
        if self.ety(a).k == 'rec' and self.ety(a).rec is None: v = self.ev(b, st)
        else: v = self.ev(b, st)
        alts = self.lv(a, st)
        self.write(alts, v, st)
        return v

    def ev_CompoundAssignOperator(self, e, st):
        a, b = self.kids(e)
        op = e['opcode'][:-1]
        y = self.ev(b, st)
        alts = self.lv(a, st)
        x = self.read(alts, st)
        la = self.ety(a)
        ct = self.prog.ty(e['computeResultType'], self) if 'computeResultType' in e else la
        cl = self.prog.ty(e['computeLHSType'], self) if 'computeLHSType' in e else la
        if isinstance(x, Ptr): r = self.arith(op, x, y, la, st, e)
        else:
            x = self.convert(x, la, cl, st)
            r = self.arith(op, x, y, ct, st, e)
            r = self.convert(r, ct, la, st)
        self.write(alts, r, st)
        return r

    def ev_ConditionalOperator(self, e, st):
        c, a, b = self.kids(e)
        if self.is_assert(e):
            v = self.truth(self.ev(c, st))
            self.safety(f'assert holds{self.where(e)}', v, st)
            return z3.IntVal(0)
        x = self.truth(self.ev(c, st))
        def run(n):
            return lambda s: (self.ev(n, s) if self.ety(n).k != 'void' else self.ev_discard(n, s))
        ra, rb = self.branch2(x, st, run(a), run(b))
        if ra is None: return rb
        if rb is None: return ra
        t = self.ety(e)
        if isinstance(ra, z3.ExprRef) and isinstance(rb, z3.ExprRef) and ra.sort() != rb.sort():
            if z3.is_real(ra): rb = self.convert(rb, None, FLT)
            elif z3.is_real(rb): ra = self.convert(ra, None, FLT)
        return ITE(x, ra, rb)

    def is_assert(self, e):
        def f(n): return n.get('kind') == 'DeclRefExpr' and n.get('referencedDecl', {}).get('name') == '__assert_fail' or any(f(c) for c in self.kids(n))
        return self.ety(e).k == 'void' and f(e)

    def ev_discard(self, e, st):
        if e['kind'] in ('ParenExpr', 'ExprWithCleanups', 'ConstantExpr'): return self.ev_discard(self.kids(e)[-1], st)
        if e['kind'] == 'ImplicitCastExpr' and e.get('castKind') in ('LValueToRValue', 'NoOp', 'ToVoid'): return self.ev_discard(self.kids(e)[0], st)
        if e['kind'] in ('DeclRefExpr', 'MemberExpr', 'StringLiteral'): return None
        if e['kind'] in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'): return self.call(e, st)
        if e.get('valueCategory') == 'lvalue': return self.lv(e, st)
        return self.ev(e, st)

    # ---------------------------------------------------------------- calls
    def ev_CallExpr(self, e, st):
        r = self.call(e, st)
        if isinstance(r, LVs): return self.read(r.alts, st)
        return r

    ev_CXXMemberCallExpr = ev_CXXOperatorCallExpr = ev_CallExpr

    def callee(self, e, st):
        c = self.kids(e)[0]
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr') and c.get('castKind') in ('FunctionToPointerDecay', 'NoOp', 'BuiltinFnToFnPtr', 'LValueToRValue', None):
            n = self.kids(c)[-1]
            if c.get('castKind') == 'LValueToRValue': return None, c
            c = n
        if c['kind'] == 'SubstNonTypeTemplateParmExpr':
            nm = self.kids(c)[0].get('name')
            if nm in self.models: return {'name': nm, 'id': None}, c
            c2 = self.kids(c)[-1]
            while c2['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'UnaryOperator'): c2 = self.kids(c2)[-1]
            if c2['kind'] == 'DeclRefExpr': return c2['referencedDecl'], c2
        if c['kind'] == 'UnaryOperator' and c['opcode'] in ('*', '&'):
            c = self.kids(c)[0]
            while c['kind'] in ('ImplicitCastExpr', 'ParenExpr') and c.get('castKind') != 'LValueToRValue': c = self.kids(c)[-1]
        if c['kind'] == 'DeclRefExpr' and c['referencedDecl'].get('kind') in ('FunctionDecl', 'CXXMethodDecl', 'CXXConversionDecl'): return c['referencedDecl'], c
        if c['kind'] == 'MemberExpr':
            d = self.prog.nodes.get(c.get('referencedMemberDecl'))
            if d is not None and d.get('kind') in ('CXXMethodDecl', 'CXXConversionDecl', 'CXXDestructorDecl', 'FunctionDecl'): return d, c
            if d is None and self.ety(c).k != 'fn' and 'bound member' in c.get('type', {}).get('qualType', ''): return {'name': c['name'], 'id': c.get('referencedMemberDecl')}, c
        return None, c

    def call(self, e, st):
        d, cn = self.callee(e, st)
        args = self.kids(e)[1:]
        if d is None:
            fv = self.ev(cn, st)
            if 'fnptr' in self.models: return self.models['fnptr'](self, fv, args, st, e)
            raise Unsupported('call through a function pointer')
        f = self.prog.funcs.get(d['id']) if d.get('id') else None
        name = d.get('name')
        if f is not None and f.id in self.contracts and (f.body or f.node.get('virtual')): return self.call_contract(f, e, cn, args, st)
        if name in self.models and (f is None or f.body is None or self.models.get(name + '!')):
            return self.models[name](self, args, st, e)
        if e['kind'] == 'CXXOperatorCallExpr' and (f is None or f.body is None):
            if name == 'operator=' and len(args) == 2: return self.copy_assign(args, st)
        if f is None or f.body is None:
            return self.external(name, args, st, e, f)
        this = None
        if e['kind'] == 'CXXOperatorCallExpr' and f.kind == 'CXXMethodDecl':
            alts = self.lv(args[0], st)
            args = args[1:]
            this = alts
        elif cn['kind'] == 'MemberExpr' and not f.static:
            b = self.kids(cn)[0]
            if cn.get('isArrow'): this = self.deref(self.ev(b, st), st, self.ety(b).to, b)
            else: this = self.lv(b, st)
        return self.invoke(f, this, self.bind_args(f, args, st), st)

    def copy_assign(self, args, st):
        src = self.lv(args[1], st) if args[1].get('valueCategory') != 'prvalue' else None
        v = self.read(src, st) if src is not None else self.ev(args[1], st)
        dst = self.lv(args[0], st)
        self.write(dst, v, st)
        return LVs(dst)

    def bind_args(self, f, args, st):
        out = []
        for n, p in enumerate(f.params):
            a = args[n] if n < len(args) else None
            ty = self.prog.ty(p, self, p)
            if a is None or a['kind'] == 'CXXDefaultArgExpr':
                init = next((c for c in self.kids(p)), None)
                if init is None and a is not None and self.kids(a): init = self.kids(a)[0]
                if init is None:
                    # the default lives on another redeclaration (template pattern): look it up by position
                    init = self.default_arg(f, n)
                v = self.convert(self.ev(init, st), self.ety(init), ty, st) if ty.k != 'ref' else LVs(self.lv(init, st))
                out.append(v)
                continue
            if ty.k == 'ref': out.append(LVs(self.lv(a, st)))
            elif ty.k == 'rec' and a.get('valueCategory') == 'lvalue': out.append(self.read(self.lv(a, st), st))
            else: out.append(self.ev(a, st))
        return out

    def default_arg(self, f, n):
        p = f.params[n]
        loc = p.get('loc', {}).get('offset')
        for nd in self.prog.nodes.values():
            if nd.get('kind') == 'ParmVarDecl' and nd.get('loc', {}).get('offset') == loc and self.kids(nd): return self.kids(nd)[0]
        raise Unsupported('default argument')

    def call_contract(self, f, e, cn, args, st):
        this = None
        if cn['kind'] == 'MemberExpr' and not f.static:
            b = self.kids(cn)[0]
            if cn.get('isArrow'): this = self.deref(self.ev(b, st), st, self.ety(b).to, b)
            else: this = self.lv(b, st)
        elif e['kind'] == 'CXXOperatorCallExpr':
            this = self.lv(args[0], st)
            args = args[1:]
        vals = self.bind_args(f, args, st)
        return self.apply_contract(f, this[0][1] if this else None, vals, st)

    def apply_contract(self, f, this, vals, st):
        c = self.contracts[f.id]
        self.stats['contracted'].add(repr(f))
        if c.requires:
            for nm, g in c.requires(self, this, vals, st): self.prove(f'precondition of {f.name}: {nm}', g, st, 'pre')
        pre = st.copy()
        if c.effect: return c.effect(self, this, vals, st)
        if c.modifies:
            for key in c.modifies(self, this, vals, st): self.havoc(st, key)
        ret = None
        rty = self.prog.ty(f.ret, self) if f.kind != 'CXXConstructorDecl' else VOID
        if rty.k != 'void':
            ret = c.result(self, this, vals, pre, st) if c.result else self.fresh(f.name + '_ret', self.sort_of(rty))
            if isinstance(ret, z3.ExprRef): self.rng(ret, rty)
        if c.ensures:
            for nm, g in c.ensures(self, this, vals, pre, st, ret): self.facts.append(IMP(AND(*st.pc), g))
        return ret

    def havoc(self, st, key):
        v = self.get(st, key)
        nm = f"{key[0]}.{'.'.join(key[1])}"
        if isinstance(v, z3.ExprRef): st.mem[key] = self.fresh(nm, v.sort())
        else: raise Unsupported(f'havoc of {key}')

    def invoke(self, f, this, vals, st):
        """run a function body on evaluated arguments (python z3 terms / Ptr / LVs / SVal)"""
        if f.body is None: raise Unsupported(f'no body for {f}')
        if self.depth > 40: raise Unsupported(f'recursion in {f.name} without a contract')
        if sum(1 for fr in self.frames if fr.func.id == f.id) >= 2: raise Unsupported(f'recursion in {f.name} without a contract')
        if isinstance(this, list):
            if len(this) != 1: raise Unsupported('call on an object chosen at run time')
            this = this[0][1]
        fr = Frame(f, this, (self.frames[-1].path if self.frames else ()) + (f.id,))
        fr.id = next(self.frame_n)
        fr.path = (self.frames[-1].path if self.frames else ()) + (f.id,)
        self.stats['inlined'].add(repr(f))
        self.frames.append(fr)
        self.depth += 1
        try:
            for p, v in zip(f.params, vals):
                ty = self.prog.ty(p, self, p)
                self.declare(p, ty, st, v)
            if f.kind == 'CXXConstructorDecl': self.ctor_inits(f, this, st)
            out = self.exec(f.body, st)
            ends = list(out.ret)
            if out.nxt is not None: ends.append(out.nxt)
            m = self.merge(ends)
            if m is None: raise Unsupported(f'{f.name} never returns')
            ret = m.ret
            m.ret = None
            self.become(st, m)
            st.ret = None
            return ret
        finally:
            self.depth -= 1
            self.frames.pop()

    def ctor_inits(self, f, this, st):
        done = set()
        for ini in f.inits:
            ai = ini.get('anyInit') or {}
            nm = ai.get('name')
            if nm is None and ini.get('baseInit') and self.kids(ini) and this.root in self.heap.values():
                bt = self.prog.ty(ini['baseInit'], self)
                e = self.kids(ini)[0]
                while e['kind'] in ('ExprWithCleanups', 'ParenExpr'): e = self.kids(e)[-1]
                if bt.rec is not None and bt.rec.name in self.heap and e['kind'] == 'CXXConstructExpr': self.construct(self.to_base([(Tt, this)], bt)[0][1], e, st)
                else: raise Unsupported('initialisation of a base class')
            if nm is None: continue
            dn = self.prog.nodes.get(ai.get('id'), ai)
            fty = self.prog.ty(dn, self, dn)
            ks = self.kids(ini)
            if not ks: continue
            e = ks[0]
            if fty.k == 'rec' and fty.rec is None and e['kind'] == 'CXXConstructExpr' and not self.kids(e): continue     # a library object starts empty
            if e['kind'] == 'CXXDefaultInitExpr':
                fd = next(x for x in f.rec.all_fields(self.prog) if x['name'] == nm)
                e = self.kids(fd)[0]
            self.init_into(this.f(nm, fty), e, st)
            done.add(nm)

    def init_into(self, lv, e, st):
        ty = lv.ty
        while e['kind'] in ('ExprWithCleanups', 'ParenExpr', 'ConstantExpr'): e = self.kids(e)[-1]
        if ty.k == 'arr':
            if e['kind'] == 'CXXConstructExpr' or (e['kind'] == 'ArrayInitLoopExpr'):
                return self.default_construct(lv, st)
            if e['kind'] == 'StringLiteral': return
            v = self.ev(e, st)
            self.write_lv(lv, v, st)
            return
        if ty.k == 'rec' and ty.rec is not None and e['kind'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            return self.construct(lv, e, st)
        if ty.k == 'ref':
            st.mem[lv.key] = LVs(self.lv(e, st))
            return
        v = self.ev(e, st)
        if isinstance(v, z3.ExprRef): v = self.convert(v, self.ety(e), ty, st)
        self.write_lv(lv, v, st)

    def construct(self, lv, e, st):
        args = self.kids(e)
        rec = lv.ty.rec
        # a copy/move construction without a user constructor is a memberwise copy
        q = e.get('ctorType', {}).get('qualType', '')
        cands = [m for m in rec.methods if m.kind == 'CXXConstructorDecl' and m.qt == q and m.body is not None]
        if not cands:
            cands = [m for m in rec.methods if m.kind == 'CXXConstructorDecl' and m.body is not None and len(m.params) >= len(args)
                     and re.sub(r'\s+', '', m.qt) == re.sub(r'\s+', '', q)]
        if cands:
            f = cands[0]
            self.invoke(f, lv, self.bind_args(f, args, st), st)
            return
        if len(args) == 1:
            self.write_lv(lv, self.ev(args[0], st) if args[0].get('valueCategory') != 'lvalue' else self.read(self.lv(args[0], st), st), st)
            return
        if not args: return self.default_fields(lv, st)
        raise Unsupported('constructor')

    def default_fields(self, lv, st):
        """implicit default constructor: default member initialisers, nothing else"""
        for f in lv.ty.rec.all_fields(self.prog):
            fty = self.prog.ty(f, self, f)
            ks = self.kids(f)
            if f.get('hasInClassInitializer') and ks: self.init_into(lv.f(f['name'], fty), ks[0], st)
            elif fty.k == 'rec' and fty.rec is not None: self.default_fields(lv.f(f['name'], fty), st)
            elif fty.k == 'arr': self.default_construct(lv.f(f['name'], fty), st)

    def default_construct(self, lv, st):
        """default construction of every element of an array of records with default member initialisers"""
        t = lv.ty
        depth = 0
        while t.k == 'arr':
            t = t.to
            depth += 1
        if t.k != 'rec' or t.rec is None: return
        ctor = [m for m in t.rec.methods if m.kind == 'CXXConstructorDecl' and m.body is not None and not m.params and not m.node.get('isImplicit')]
        one = LV(f'elt{next(self.frame_n)}', (), [], t)
        old = {}
        for p, lt in self.leaves(t):
            self.leaf_ty[(one.root, p)] = lt
            if lt.k in ('int', 'bool', 'float'): st.mem[(one.root, p)] = old[p] = self.get(st, (one.root, p))
        if ctor: self.invoke(ctor[0], one, [], st)
        else: self.default_fields(one, st)
        for p, lt in self.leaves(t):
            v = st.mem.get((one.root, p))
            if v is None or isinstance(v, Ptr) or (p in old and same(old[p], v)): continue
            for _ in range(depth): v = z3.K(z3.IntSort(), v)
            self.write_lv(LV(lv.root, lv.path + ('[]',) * depth + p, lv.idx, lt), v, st) if not lv.idx else \
                self._put((lv.root, lv.path + ('[]',) * depth + p), lv.idx, v, st, Tt, lt)

    def ev_CXXConstructExpr(self, e, st):
        ty = self.ety(e)
        if ty.k != 'rec' or ty.rec is None:
            ks = self.kids(e)
            if len(ks) == 1: return self.ev(ks[0], st)
            raise Unsupported('construction')
        root = f'tmp{next(self.frame_n)}'
        l = LV(root, (), [], ty)
        for p, lt in self.leaves(ty): self.leaf_ty[(root, p)] = lt
        self.construct(l, e, st)
        return self.read_lv(l, st)

    ev_CXXTemporaryObjectExpr = ev_CXXConstructExpr

    def ev_CXXNewExpr(self, e, st):
        if self.new_hook: return self.new_hook(self, e, st)
        # placement form of the class's own operator new, over a heap of records
        f = self.prog.funcs.get((e.get('operatorNewDecl') or {}).get('id'))
        ty = self.ety(e)
        if f is None or f.body is None or not self.is_heap(ty) or not self.byte_hook: raise Unsupported('new expression')
        ks = self.kids(e)
        ctor = next((c for c in ks if c['kind'] == 'CXXConstructExpr'), None)
        if ctor is None: raise Unsupported('new expression without a constructor')
        vals = [self.size_of(ty.to)]
        for p, a in zip(f.params[1:], [c for c in ks if c is not ctor]):
            pt = self.prog.ty(p, self, p)
            vals.append(LVs(self.lv(a, st)) if pt.k == 'ref' else self.ev(a, st))
        r = self.apply_contract(f, None, vals, st) if f.id in self.contracts else self.invoke(f, None, vals, st)
        a = r if isinstance(r, z3.ExprRef) else self.byte_hook(r, ty, st, e)
        if a is None: raise Unsupported('result of operator new')
        if 'noexcept' not in f.qt and 'throw()' not in f.qt:
            self.safety('an allocation function that may return null is not declared noexcept: the constructor runs on a null pointer', a != 0, st)
        lv = LV(self.heap[ty.to.rec.name], ('[]',), [a], ty.to)
        self.branch2(a != 0, st, lambda s: self.construct(lv, ctor, s), lambda s: None)
        return a

    def vals(self, args, st): return [self.ev(a, st) for a in args]

    def external(self, name, args, st, e, f=None):
        """library functions"""
        if name in ('__assert_fail', 'abort', 'exit'):
            self.safety(f'assertion not reached{self.where(e)}', Ff, st)
            return z3.IntVal(0)
        if name in ('swap', 'iter_swap'):
            a, b = self.lv(args[0], st), self.lv(args[1], st)
            x, y = self.read(a, st), self.read(b, st)
            self.write(a, y, st)
            self.write(b, x, st)
            return None
        if name in ('move', 'forward', 'as_const'): return LVs(self.lv(args[0], st))
        if name in ('min', 'max', 'fmin', 'fmax'):
            x, y = self.vals(args, st)
            if z3.is_real(x) and z3.is_int(y): y = z3.ToReal(y)
            if z3.is_int(x) and z3.is_real(y): x = z3.ToReal(x)
            return z3.If(y < x, y, x) if 'min' in name else z3.If(x < y, y, x)
        if name in ('abs', 'fabs', 'labs'):
            x = self.ev(args[0], st)
            return z3.If(x < 0, -x, x)
        if name == 'floor':
            x = self.ev(args[0], st)
            return z3.ToReal(z3.ToInt(x)) if z3.is_real(x) else z3.ToReal(x)
        if name == 'ceil':
            x = self.ev(args[0], st)
            return z3.ToReal(-z3.ToInt(-x)) if z3.is_real(x) else z3.ToReal(x)
        if name == 'trunc':
            x = self.ev(args[0], st)
            return z3.If(x >= 0, z3.ToReal(z3.ToInt(x)), z3.ToReal(-z3.ToInt(-x)))
        if name in ('isnan', 'isinf', '__builtin_isnan'):
            self.ev(args[0], st)
            self.assumptions.add('no NaN or infinity arises')
            return Ff
        if name in ('sqrt', 'exp', 'log', 'log2', 'log10', 'expm1', 'log1p', 'pow'):
            xs = [self.convert(v, None, FLT) for v in self.vals(args, st)]
            return self.ufun(name, *xs)
        if name in ('fill', 'fill_n', 'copy', 'copy_n', 'memcpy', 'memset', 'accumulate', 'max_element'):
            return self.stdalg(name, args, st, e)
        if name == 'infinity' or name == '__builtin_inf' or name == '__builtin_huge_val': return self.inf()
        if name in ('operator<<',): return None
        raise Unsupported(f'call of {name} (no body)')

    def ufun(self, name, *xs):
        f = z3.Function('m_' + name, *([z3.RealSort()] * (len(xs) + 1)))
        r = f(*xs)
        if name == 'sqrt':
            if ('sqrt', r.get_id()) not in self.seen_rng:
                self.keep.append(r)
                self.seen_rng.add(('sqrt', r.get_id()))
                self.facts.append(z3.Implies(xs[0] >= 0, z3.And(r >= 0, r * r == xs[0])))
        if name == 'exp':
            if ('exp', r.get_id()) not in self.seen_rng:
                self.keep.append(r)
                self.seen_rng.add(('exp', r.get_id()))
                self.facts.append(z3.And(r > 0, z3.Implies(xs[0] <= 0, r <= 1), z3.Implies(xs[0] >= 0, r >= 1), z3.Implies(xs[0] < 0, r < 1), z3.Implies(xs[0] > 0, r > 1)))
        if name in ('log', 'log2'):
            if ('log', r.get_id()) not in self.seen_rng:
                self.keep.append(r)
                self.seen_rng.add(('log', r.get_id()))
                self.facts.append(z3.And(z3.Implies(z3.And(xs[0] > 0, xs[0] < 1), r < 0), z3.Implies(xs[0] > 1, r > 0), z3.Implies(xs[0] == 1, r == 0)))
        return r

    def stdalg(self, name, args, st, e):
        vs = [self.ev(a, st) for a in args]
        j = z3.Int('j!alg')
        def rng_write(p, n, fn):
            for g, l in p.alts:
                if l is None or l.path[-1:] != ('[]',): raise Unsupported(name)
                base = l.idx[-1]
                if l.dim is not None: self.safety(f'range of {name} inside the array', IMP(n > 0, AND(base >= 0, base + n <= l.dim)), st)
                a = self.get(st, l.key, l.ty)
                row = SEL(a, *l.idx[:-1])
                new = self.fresh('alg', row.sort())
                self.facts.append(z3.ForAll([j], z3.Select(new, j) == z3.If(z3.And(j >= base, j < base + n), fn(j - base), z3.Select(row, j)), patterns=[z3.Select(new, j)]))
                st.mem[l.key] = self.store(a, l.idx[:-1], new)
        if name == 'fill':
            p, q, v = vs
            n = self.arith('-', q, p, I64, st)
            rng_write(p, n, lambda k: self.convert(v, None, p.alts[0][1].ty))
            return None
        if name == 'fill_n':
            p, n, v = vs
            rng_write(p, n, lambda k: self.convert(v, None, p.alts[0][1].ty))
            return None
        if name in ('copy', 'copy_n', 'memcpy'):
            if name == 'copy':
                s, q, d = vs
                n = self.arith('-', q, s, I64, st)
            elif name == 'copy_n': s, n, d = vs
            else:
                d, s, n = vs
                n = n / self.size_of(d.alts[0][1].ty)
            sl = s.alts[0][1]
            src = SEL(self.get(st, sl.key, sl.ty), *sl.idx[:-1])
            if sl.dim is not None: self.safety(f'range of {name} inside the source', IMP(n > 0, AND(sl.idx[-1] >= 0, sl.idx[-1] + n <= sl.dim)), st)
            rng_write(d, n, lambda k: z3.Select(src, sl.idx[-1] + k))
            return d
        if name == 'memset':
            p, v, n = vs
            if not (z3.is_int_value(z3.simplify(v)) and z3.simplify(v).as_long() == 0): raise Unsupported('memset')
            t = p.alts[0][1].ty
            rng_write(p, n / self.size_of(t), lambda k: self.zero(t))
            return p
        raise Unsupported(name)

    # ---------------------------------------------------------------- statements
    def declare(self, d, ty, st, v=None, init=None):
        fr = self.frames[-1]
        root = f"{d.get('name') or 'arg'}@{fr.id}_{next(self.frame_n)}" if d['id'] not in fr.locals else fr.locals[d['id']][0]
        if d['id'] not in fr.locals:
            fr.locals[d['id']] = (root, ty)
            for p, lt in (self.leaves(ty) if ty.k != 'ref' else ()): self.leaf_ty[(root, p)] = lt
        if d['id'] not in fr.order: fr.order.append(d['id'])
        lv = LV(root, (), [], ty)
        if v is not None:
            if ty.k == 'ref':
                st.mem[lv.key] = v if isinstance(v, LVs) else LVs(self.tmp(v, ty.to, st))
            else:
                if isinstance(v, LVs): v = self.read(v.alts, st)
                if isinstance(v, z3.ExprRef): v = self.convert(v, None, ty, st) if ty.k != 'int' or z3.is_real(v) or z3.is_bool(v) else v
                self.write_lv(lv, v, st)
            return
        if init is not None:
            self.init_into(lv, init, st)
            return
        # uninitialised: arbitrary
        for p, lt in (self.leaves(ty) if ty.k != 'ref' else ()):
            if lt.k == 'ptr' and not self.is_heap(lt):
                if '[]' in p:
                    st.mem[(root, p)] = ('ptrarr', {})
                    if lt.to.k in self.families and p[-1] == '[]':
                        for k in range(self.families[lt.to.k][1].count('[]')):
                            kk = (root, p + (f'@{k}',))
                            self.leaf_ty[kk] = I64
                            st.mem[kk] = self.fresh(d.get('name') or 'u', self.key_sort(kk, I64))
                else: st.mem.pop((root, p), None)
                continue
            try: srt = self.key_sort((root, p), lt)
            except Unsupported: continue
            st.mem[(root, p)] = self.fresh(d.get('name') or 'u', srt)
        if ty.k == 'rec' and ty.rec is not None: pass

    def exec(self, s, st):
        if st is None or s is None or not s: return Out(st)
        k = s['kind']
        m = getattr(self, 'st_' + k, None)
        if m: return m(s, st)
        if 'Expr' in k or 'Operator' in k or 'Literal' in k:
            self.ev_discard(s, st)
            return Out(st)
        raise Unsupported(f'statement {k}')

    def seq(self, stmts, st):
        out = Out(st)
        for s in stmts:
            if out.nxt is None: break
            o = self.exec(s, out.nxt)
            out.nxt = o.nxt
            out.brk += o.brk
            out.cont += o.cont
            out.ret += o.ret
        return out

    def st_CompoundStmt(self, s, st):
        n = len(self.frames[-1].order)
        try: return self.seq(self.kids(s), st)
        finally: del self.frames[-1].order[n:]      # locals go out of scope
    def st_NullStmt(self, s, st): return Out(st)
    def st_AttributedStmt(self, s, st): return self.seq([c for c in self.kids(s) if 'Attr' not in c['kind']], st)

    def st_DeclStmt(self, s, st):
        for d in self.kids(s):
            if d['kind'] == 'VarDecl':
                if d.get('storageClass') == 'static': continue
                ty = self.prog.ty(d, self, d)
                ks = self.kids(d)
                if ty.k == 'arr' and ty.to.k == 'ptr' and not self.is_heap(ty.to):
                    self.declare(d, ty, st)
                elif ks: self.declare(d, ty, st, init=ks[-1])
                else: self.declare(d, ty, st)
            elif d['kind'] in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'StaticAssertDecl', 'EmptyDecl', 'UsingDirectiveDecl'): pass
            elif d['kind'] in ('CXXRecordDecl',): pass
            else: raise Unsupported(f"declaration {d['kind']}")
        return Out(st)

    def st_ReturnStmt(self, s, st):
        ks = self.kids(s)
        if ks:
            f = self.frames[-1].func
            rty = self.prog.ty(f.ret, self)
            e = ks[0]
            if rty.k == 'ref': st.ret = LVs(self.lv(e, st))
            elif rty.k == 'void': self.ev_discard(e, st)
            else:
                v = self.ev(e, st)
                if isinstance(v, LVs): v = self.read(v.alts, st)
                if isinstance(v, z3.ExprRef) and rty.scalar and (z3.is_bool(v) != (rty.k == 'bool') or z3.is_real(v) != (rty.k == 'float')): v = self.convert(v, None, rty, st)
                st.ret = v
        return Out(None, ret=[st])

    def st_BreakStmt(self, s, st): return Out(None, brk=[st])
    def st_ContinueStmt(self, s, st): return Out(None, cont=[st])

    def st_IfStmt(self, s, st):
        ks = [c for c in s.get('inner', [])]
        pre = []
        i = 0
        while i < len(ks) and ks[i] and ks[i]['kind'] == 'DeclStmt':
            pre.append(ks[i])
            i += 1
        for p in pre: self.exec(p, st)
        rest = [c for c in ks[i:] if c]
        c = self.truth(self.ev(rest[0], st))
        th, el = rest[1], rest[2] if len(rest) > 2 else None
        cs = z3.simplify(c)
        if self.prune and not z3.is_true(cs) and not z3.is_false(cs):
            if self.check(st.pc, c, 300_000): cs = Tt
            elif self.check(st.pc, NOT(c), 300_000): cs = Ff
        if z3.is_true(cs): return self.exec(th, st)
        if z3.is_false(cs): return self.exec(el, st) if el else Out(st)
        a = self.exec(th, st.fork(c))
        b = self.exec(el, st.fork(NOT(c))) if el else Out(st.fork(NOT(c)))
        return Out(self.merge([a.nxt, b.nxt]), a.brk + b.brk, a.cont + b.cont, a.ret + b.ret)

    def st_SwitchStmt(self, s, st):
        ks = self.kids(s)
        v = self.ev(ks[-2], st)
        body = self.kids(ks[-1])
        # group labels
        seqs, labels = [], []
        flat = []
        def unroll(c):
            if c['kind'] == 'CaseStmt':
                kk = self.kids(c)
                flat.append(('case', kk[0]))
                unroll(kk[-1])
            elif c['kind'] == 'DefaultStmt':
                flat.append(('default', None))
                unroll(self.kids(c)[-1])
            else: flat.append(('stmt', c))
        for c in body: unroll(c)
        cases = [self.ev(x, st) for t, x in flat if t == 'case']
        none = AND(*[v != c for c in cases])
        cur, outs, rets, conts = None, [], [], []
        has_def = any(t == 'default' for t, x in flat)
        for t, x in flat:
            if t == 'case': cur = self.merge([cur, st.fork(v == self.ev(x, st))])
            elif t == 'default': cur = self.merge([cur, st.fork(none)])
            elif cur is not None:
                o = self.exec(x, cur)
                cur = o.nxt
                outs += o.brk
                rets += o.ret
                conts += o.cont
        if not has_def: outs.append(st.fork(none))
        return Out(self.merge([cur] + outs), [], conts, rets)

    # ---------------------------------------------------------------- loops
    def st_ForStmt(self, s, st):
        ks = s['inner']
        init, cvar, cond, inc, body = (ks + [None] * 5)[:5]
        n = len(self.frames[-1].order)
        if init:
            self.exec(init, st)
        try: return self.loop(s, cond or None, inc or None, body, st, True)
        finally: del self.frames[-1].order[n:]

    def st_WhileStmt(self, s, st):
        ks = [c for c in s['inner'] if c]
        return self.loop(s, ks[0], None, ks[-1], st, True)

    def st_DoStmt(self, s, st):
        ks = [c for c in s['inner'] if c]
        return self.loop(s, ks[1], None, ks[0], st, False)

    def st_CXXForRangeStmt(self, s, st):
        ks = [c for c in s['inner'] if c]
        rng = next(c for c in ks if c['kind'] == 'DeclStmt')
        rv = self.kids(rng)[0]
        alts = self.lv(self.kids(rv)[-1], st)
        if len(alts) != 1 or alts[0][1].ty.k != 'arr': raise Unsupported('range-for over a non-array')
        arr = alts[0][1]
        dim = arr.ty.dim
        if dim is None: raise Unsupported('range-for over an array of unknown size')
        dim = z3.IntVal(dim) if isinstance(dim, int) else dim
        var = self.kids(ks[-2])[0]
        body = ks[-1]
        fr = self.frames[-1]
        key = (f"__it@{fr.id}", ())
        key = (f"__it@{fr.id}_{s['id'][-5:]}", ())
        self.leaf_ty[key] = I32
        self.hidden.setdefault(fr.id, [])
        if key not in self.hidden[fr.id]: self.hidden[fr.id].append(key)
        st.mem[key] = z3.IntVal(0)
        vty = self.prog.ty(var, self, var)
        if vty.k == 'ref' and vty.to.k == 'rec' and vty.to.rec is None: vty = T('ref', to=arr.ty.to)

        def cond(S): return S.mem[key] < dim

        def bind(S):
            l = self.embed_lv(arr.at(S.mem[key], arr.ty.to, None))
            if vty.k == 'ref': self.declare(var, T('ref', to=arr.ty.to), S, LVs([(Tt, l)]))
            else: self.declare(var, vty, S, self.read([(Tt, l)], S))

        def inc(S): S.mem[key] = S.mem[key] + 1
        return self.loop(s, cond, inc, body, st, True, bind)

    def loop(self, node, cond, inc, body, st, pretest, bind=None):
        def ev_cond(S):
            if cond is None: return Tt
            if callable(cond): return cond(S)
            if cond.get('kind') == 'DeclStmt': raise Unsupported('declaration in a condition')
            return self.truth(self.ev(cond, S))

        def iterate(S):
            """body + increment: (end state, breaks, returns)"""
            if bind: bind(S)
            o = self.exec(body, S)
            end = self.merge([o.nxt] + o.cont)
            if end is not None and inc is not None:
                if callable(inc): inc(end)
                else: self.ev_discard(inc, end)
            return end, o.brk, o.ret

        # 1. literal trip count: execute iterations one by one
        saved = (len(self.facts), len(self.obls), set(self.seen_rng))
        cur, brks, rets, n = st.copy(), [], [], 0
        ok = True
        first = not pretest
        while True:
            if cur is None: break
            if not first:
                c = z3.simplify(ev_cond(cur))
                if z3.is_false(c): break
                if not z3.is_true(c):
                    ok = False
                    break
            first = False
            if n >= self.max_unroll:
                ok = False
                break
            if n == 0 and not self.trip_literal(node, cond, cur, pretest):
                ok = False
                break
            self.unrolled.append((node['id'], n))
            try: cur, b, r = iterate(cur)
            finally: self.unrolled.pop()
            brks += b
            rets += r
            n += 1
        if ok:
            return Out(self.merge(([cur] if cur is not None else []) + brks), [], [], rets)
        del self.facts[saved[0]:]
        del self.obls[saved[1]:]
        self.seen_rng = saved[2]
        # 2. do-while: first iteration is not cut by the condition
        return self.loop_inv(node, cond, ev_cond, iterate, st, pretest)

    def trip_literal(self, node, cond, st, pretest):
        """does the loop bound look like a literal?  (cheap syntactic filter before unrolling)"""
        if cond is None or callable(cond): 
            return callable(cond)
        def has_lit(n): return n.get('kind') in ('IntegerLiteral', 'SubstNonTypeTemplateParmExpr') or any(has_lit(c) for c in self.kids(n))
        def lits(n):
            if n.get('kind') == 'IntegerLiteral': yield int(n['value'])
            for c in self.kids(n): yield from lits(c)
        ls = list(lits(cond))
        return not ls or all(abs(x) <= self.max_unroll for x in ls)

    def loop_inv(self, node, cond, ev_cond, iterate, st, pretest):
        self.stats['loops'] += 1
        fr = self.frames[-1]
        mkey = (fr.path, node['id'], tuple(self.unrolled))
        # ---- which memory does an iteration change?
        rec0 = self.record
        self.record = False
        mo0, self.mods_only = self.mods_only, True
        mods = set(self.memo.get(mkey, {}).get('mods', ()))
        mods = {k for k in mods if k in st.mem or k in self.base}
        for attempt in range(40):
            if attempt == 39: raise Unsupported('modified memory of a loop does not stabilise')
            H = self.havoc_state(st, mods)
            if H is None: raise Unsupported('loop modifies a pointer that is not an array cursor')
            mark = (len(self.facts), set(self.seen_rng))
            S = H.copy()
            if pretest: S = S.fork(ev_cond(S))
            end, b, r = iterate(S)
            if end is not None and not pretest: ev_cond(end)
            del self.facts[mark[0]:]
            self.seen_rng = mark[1]
            new = set()
            if end is not None:
                for k, v in end.mem.items():
                    if k in mods: continue
                    old = H.mem.get(k, self.base.get(k))
                    if k in H.mem or self.outer(k, st):
                        if old is None: old = self.get(H, k)
                        if not same(old, v): new.add(k)
            if not new: break
            mods |= new
        self.record = rec0
        self.mods_only = mo0
        self.memo.setdefault(mkey, {})['mods'] = mods
        if self.mods_only:
            H = self.havoc_state(st, mods)
            S = H.copy()
            if pretest: S = S.fork(ev_cond(S))
            end, b, r = iterate(S)
            if pretest: exits = [H]
            else: exits = [end] if end is not None else []
            return Out(self.merge(exits + b), [], [], r)
        L = Loop(self, st, mods, fr, node, fr.func.name)
        cands = self.candidates(L, ev_cond, cond)
        # surviving candidates of an earlier visit of the same loop (the hypotheses only get weaker)
        prev = self.memo[mkey].get('alive')
        if prev is not None:
            seen = self.memo[mkey]['labels']
            cands = [(l, f) for l, f in cands if l in prev or l not in seen]
        self.memo[mkey]['labels'] = self.memo[mkey].get('labels', set()) | {l for l, _ in cands}
        # ---- entry
        alive = []
        entry_retry = 30
        H = self.havoc_state(st, mods)
        new = set()
        for k in mods:
            v = H.mem[k]
            if isinstance(v, Ptr): new |= {t.get_id() for _, l in v.alts for t in l.idx[-1:]}
            elif isinstance(v, z3.ExprRef): new.add(v.get_id())
        for l, f in cands:
            g = self.cand(f, H)
            if g is None or not mentions(z3.simplify(g), new): continue      # says nothing about what the loop changes
            g = self.cand(f, st)
            if g is None: continue
            if z3.is_true(z3.simplify(g)) or self.check(st.pc, g, self.houdini_rl): alive.append((l, f))
            elif l in self.hook_labels and entry_retry > 0:
                # a candidate of the contract: a second opinion before it is given up
                entry_retry -= 1
                if self.second(st.pc, g, self.houdini_rl or self.rl): alive.append((l, f))
        # ---- inductive subset
        rounds = 0
        while True:
            rounds += 1
            self.stats['houdini'] += 1
            mark = (len(self.facts), len(self.obls), set(self.seen_rng))
            self.record = False
            H = self.havoc_state(st, mods)
            hyp = [self.cand(f, H) for l, f in alive]
            alive = [a for a, h in zip(alive, hyp) if h is not None]
            for h in hyp:
                if h is not None: self.facts.append(IMP(AND(*st.pc), h))
            S = H.copy()
            if pretest: S = S.fork(ev_cond(S))
            end, b, r = iterate(S)
            bad = set()
            if end is not None:
                if not pretest: end = end.fork(ev_cond(end))
                if self.feasible(end):
                    for l, f in alive:
                        g = self.cand(f, end)
                        if g is None or not self.check(end.pc, g, self.houdini_rl): bad.add(l)
                    again = [(l, f) for l, f in alive if l in bad and l in self.hook_labels]
                    if len(again) <= 8:
                        for l, f in again:
                            g = self.cand(f, end)
                            if g is not None and self.second(end.pc, g, self.houdini_rl or self.rl): bad.discard(l)
                    if rounds + (prev is not None) > 1 and 0 < len(bad) <= self.retry_max:
                        # few are left: do not give one up because of the order the solver happened to search in
                        for l, f in alive:
                            if l in bad:
                                g = self.cand(f, end)
                                if g is not None and self.recheck(end.pc, g, self.houdini_rl or self.rl): bad.discard(l)
            del self.facts[mark[0]:]
            self.seen_rng = mark[2]
            self.record = rec0
            if os.environ.get('DV_DEBUG') == '2': print(f'    loop {fr.func.name} round {rounds}: {len(alive)} alive, drop {len(bad)}', sorted(bad)[:int(os.environ.get('DV_DROP', 0))], flush=True)
            if not bad: break
            alive = [(l, f) for l, f in alive if l not in bad]
        self.memo[mkey]['alive'] = {l for l, _ in alive}
        self.ALIVE |= {f'{fr.func.name}|{l}' for l, _ in alive}
        if os.environ.get('DV_DEBUG'):
            print(f'  loop in {fr.func.name}: {len(alive)}/{len(cands)} invariants:', [l for l, _ in alive], flush=True)
        # ---- the final pass: obligations are recorded
        H = self.havoc_state(st, mods)
        for l, f in alive: self.facts.append(IMP(AND(*st.pc), self.cand(f, H)))
        self.stats['inv_proved'] += 2 * len(alive) if rec0 else 0
        S = H.copy()
        if pretest:
            c = ev_cond(S)
            In, Ex = S.fork(c), S.fork(NOT(c))
            end, brk, ret = iterate(In.copy())
            exits = [Ex] if not z3.is_false(z3.simplify(NOT(c))) else []
            again = end
            start = In
        else:
            end, brk, ret = iterate(S)
            exits = []
            again = None
            start = S
            if end is not None:
                c = ev_cond(end)
                exits = [end.fork(NOT(c))]
                again = end.fork(c)
        if self.record and self.term_check and again is not None: self.termination(L, H, start, again, node, cond, pretest)
        return Out(self.merge(exits + brk), [], [], ret)

    def outer(self, k, st):
        """memory that exists outside the loop body (object fields, globals)"""
        root = k[0]
        return '@' not in str(root) and not str(root).startswith(('tmp', 'elt'))

    def feasible(self, st):
        return not self.check(st.pc, Ff, 200_000)

    def cand(self, f, S):
        try: return f(S)
        except (KeyError, z3.Z3Exception, AttributeError): return None

    def havoc_state(self, st, mods):
        H = st.copy()
        for k in sorted(mods, key=str):
            v = self.get(st, k)
            nm = k[0] + ('.' + '.'.join(k[1]) if k[1] else '')
            if isinstance(v, z3.ExprRef):
                c = self.fresh(nm, v.sort())
                H.mem[k] = c
                lt = self.leaf_ty.get(k)
                if lt is not None and not k[1].count('[]'): self.rng(c, lt)
            elif isinstance(v, Ptr):
                if len(v.alts) == 1 and v.alts[0][1] is not None and v.alts[0][1].path[-1:] == ('[]',):
                    l = v.alts[0][1]
                    H.mem[k] = Ptr.to(LV(l.root, l.path, l.idx[:-1] + [self.fresh(nm + '#', z3.IntSort())], l.ty, l.dim))
                else: return None
            elif isinstance(v, tuple) and v and v[0] == 'ptrarr': H.mem[k] = v
            else: return None
        return H

    def termination(self, L, H, start, end, node, cond, pretest):
        ms = []
        if cond is not None and not callable(cond):
            for x, y, op in self.cond_atoms(cond):
                def m(S, x=x, y=y):
                    s2 = S.copy()
                    r0, self.record = self.record, False
                    mark = len(self.facts)
                    try:
                        u, v = self.ev(x, s2), self.ev(y, s2)
                        if isinstance(u, Ptr): u, v = u.alts[0][1].idx[-1], v.alts[0][1].idx[-1]
                    finally:
                        self.record = r0
                    return u, v
                ms.append((lambda S, m=m: (lambda p: p[1] - p[0])(m(S))))
                ms.append((lambda S, m=m: (lambda p: p[0] - p[1])(m(S))))
        elif callable(cond):
            hk = self.hidden[self.frames[-1].id][-1]
            ms.append(lambda S: -S.mem[hk])
            return
        for nm, key in L.int_keys(True):
            for c in (0, ):
                ms.append(lambda S, key=key: L.val(S, key))
            for d in self.tp.values():
                if isinstance(d, z3.ExprRef) and z3.is_int(d): ms.append(lambda S, key=key, d=d: d - L.val(S, key))
        for hk in self.measure_hooks:
            ms = list(hk(L)) + ms
        for m in ms:
            try: a, b = m(start if pretest else H), m(end)
            except Exception: continue
            if not isinstance(a, z3.ExprRef) or not z3.is_int(a): continue
            low = -2 if True else 0
            if self.check(end.pc, z3.And(b < a, a >= -2), self.houdini_rl):
                self.stats['inv_proved'] += 1
                return
        o = Obl((self.context + ': ' if self.context else '') + f'loop in {L.fn} terminates', list(self.facts), list(end.pc), Ff, 'termination')
        self.obls.append(o)

    def cond_atoms(self, c):
        if c['kind'] in ('ParenExpr', 'ImplicitCastExpr', 'ConstantExpr', 'ExprWithCleanups'):
            yield from self.cond_atoms(self.kids(c)[-1])
        elif c['kind'] == 'BinaryOperator' and c['opcode'] in ('<', '<=', '>', '>=', '!='):
            a, b = self.kids(c)
            if self.pure(a) and self.pure(b): yield a, b, c['opcode']
        elif c['kind'] == 'BinaryOperator' and c['opcode'] in ('&&',):
            for k in self.kids(c): yield from self.cond_atoms(k)

    # ---------------------------------------------------------------- candidates
    def candidates(self, L, ev_cond, cond):
        C = []
        add = lambda l, f: C.append((l, f))
        ints = L.int_keys(True)
        consts = [('0', z3.IntVal(0))]
        seen = set()
        for nm, key in L.int_keys(False):
            v = L.val(L.pre, key)
            if v.get_id() in seen: continue
            seen.add(v.get_id())
            consts.append((nm, v))
        for nm, v in self.tp.items():
            if isinstance(v, z3.ExprRef) and z3.is_int(v): consts.append((nm, v))
        for nm, v in self.extra_terms: consts.append((nm, v))
        # bounds that occur in the loop condition
        if cond is not None and not callable(cond):
            for x, y, op in self.cond_atoms(cond):
                for side in (x, y):
                    def f(S, side=side):
                        s2 = S.copy()
                        r0, self.record = self.record, False
                        n = len(self.facts)
                        try: v = self.ev(side, s2)
                        finally: self.record = r0
                        return v
                    try: v0 = f(L.pre)
                    except Unsupported: continue
                    if isinstance(v0, Ptr) and len(v0.alts) == 1 and v0.alts[0][1] is not None: v0 = v0.alts[0][1].idx[-1]
                    if isinstance(v0, z3.ExprRef) and z3.is_int(v0) and v0.get_id() not in seen:
                        # only if not modified by the loop
                        H = self.havoc_state(L.pre, L.mods)
                        try: v1 = f(H)
                        except Unsupported: continue
                        if isinstance(v1, Ptr) and len(v1.alts) == 1 and v1.alts[0][1] is not None: v1 = v1.alts[0][1].idx[-1]
                        if v1.eq(v0):
                            seen.add(v0.get_id())
                            consts.append((f'bound{len(consts)}', v0))
        L.consts = consts
        for nm, key in ints:
            v = lambda S, key=key: L.val(S, key)
            p = v(L.pre)
            add(f'{nm}>=pre', lambda S, v=v, p=p: v(S) >= p)
            add(f'{nm}<=pre', lambda S, v=v, p=p: v(S) <= p)
            for cn, c in consts:
                add(f'{nm}<={cn}', lambda S, v=v, c=c: v(S) <= c)
                add(f'{nm}>={cn}', lambda S, v=v, c=c: v(S) >= c)
                add(f'{nm}<{cn}', lambda S, v=v, c=c: v(S) < c)
            add(f'{nm}>=-1', lambda S, v=v: v(S) >= -1)
        for a, b in itertools.combinations(ints, 2):
            x = lambda S, k=a[1]: L.val(S, k)
            y = lambda S, k=b[1]: L.val(S, k)
            px, py = x(L.pre), y(L.pre)
            add(f'{a[0]}~{b[0]}', lambda S, x=x, y=y, px=px, py=py: x(S) - px == y(S) - py)
            add(f'{a[0]}~-{b[0]}', lambda S, x=x, y=y, px=px, py=py: x(S) - px == py - y(S))
            add(f'{a[0]}<={b[0]}', lambda S, x=x, y=y: x(S) <= y(S))
            add(f'{a[0]}>={b[0]}', lambda S, x=x, y=y: x(S) >= y(S))
            add(f'{a[0]}<{b[0]}', lambda S, x=x, y=y: x(S) < y(S))
            add(f'{b[0]}<{a[0]}', lambda S, x=x, y=y: y(S) < x(S))
        if self.auto_frame:
            C += self.frame_cands(L, ints)
        generic = len(C)
        for h in self.inv_hooks:
            for l, f in h(L): add(l, f)
        seen = {}
        for n, (l, f) in enumerate(C):
            c = seen[l] = seen.get(l, 0) + 1
            if c > 1: C[n] = (f'{l} #{c}', f)
        self.hook_labels = {l for l, _ in C[generic:]}
        if self.HINTS is not None: C = [c for c in C if f'{L.fn}|{c[0]}' in self.HINTS]
        return C

    def frame_cands(self, L, ints):
        out = []
        k = z3.Int('k!f')
        k2 = z3.Int('k2!f')
        for key in L.arr_keys():
            n = key[1].count('[]')
            A0 = self.get(L.pre, key)
            nm = key[0] + '.'.join(key[1])
            A = lambda S, key=key: self.get(S, key)
            terms = [(l, lambda S, kk=kk: L.val(S, kk)) for l, kk in ints] + [(l, lambda S, c=c: c) for l, c in L.consts]
            for l, t in terms:
                for rel, fn in (('>=', lambda k, v: k >= v), ('<', lambda k, v: k < v), ('>', lambda k, v: k > v), ('!=', lambda k, v: k != v)):
                    out.append((f'{nm} same at {rel}{l}', lambda S, A=A, A0=A0, t=t, fn=fn: QF([k], z3.Implies(fn(k, t(S)), z3.Select(A(S), k) == z3.Select(A0, k)), z3.Select(A(S), k))))
                    if n == 2:
                        out.append((f'{nm} same at col {rel}{l}', lambda S, A=A, A0=A0, t=t, fn=fn: QF([k, k2], z3.Implies(fn(k2, t(S)), z3.Select(z3.Select(A(S), k), k2) == z3.Select(z3.Select(A0, k), k2)), z3.Select(z3.Select(A(S), k), k2))))
        return out
