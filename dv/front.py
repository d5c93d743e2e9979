"""Front end: clang's own AST (JSON) of the headers in /repo/src, instantiated.

Nothing is rewritten: the text that clang parses is the header that ships.  A small
translation unit wraps the header in a namespace (to filter the dump) and instantiates
the class template.  Template arguments keep their names in the AST
(SubstNonTypeTemplateParmExpr), so the engine treats them as symbolic constants."""
import json, os, re, subprocess, tempfile, hashlib

REPO = os.environ.get('DV_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
CLANG = 'clang++-18'


class Unsupported(Exception):
    """The code uses a construct outside the verifier's reach."""


class ExtractError(Exception):
    """The header does not compile, or a function/field the contract is about is gone."""


# ---------------------------------------------------------------- types
class T:
    __slots__ = ('k', 'w', 's', 'to', 'dim', 'rec', 'name')

    def __init__(self, k, w=0, s=False, to=None, dim=None, rec=None, name=''):
        self.k, self.w, self.s, self.to, self.dim, self.rec, self.name = k, w, s, to, dim, rec, name

    def __repr__(self):
        if self.k == 'int': return f"{'i' if self.s else 'u'}{self.w}"
        if self.k in ('ptr', 'ref'): return f"{self.k}({self.to})"
        if self.k == 'arr': return f"arr({self.to},{self.dim})"
        if self.k == 'rec': return f"rec({self.rec.name if self.rec else self.name})"
        return self.k

    @property
    def scalar(self): return self.k in ('int', 'bool', 'float', 'ptr', 'fn')


BOOL, FLT, VOID = T('bool'), T('float', 64), T('void')
I32, U32, U8, I64, U64 = T('int', 32, True), T('int', 32, False), T('int', 8, False), T('int', 64, True), T('int', 64, False)
INTS = {
    'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False), 'short': (16, True),
    'unsigned short': (16, False), 'int': (32, True), 'unsigned int': (32, False), 'unsigned': (32, False),
    'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False),
    'size_t': (64, False), 'std::size_t': (64, False), 'int32_t': (32, True), 'uint32_t': (32, False),
    'uint8_t': (8, False), 'int8_t': (8, True), 'uint16_t': (16, False), 'int16_t': (16, True),
    'int64_t': (64, True), 'uint64_t': (64, False), 'ptrdiff_t': (64, True), 'time_t': (64, True),
}


class Func:
    def __init__(self, node, rec, pattern=False):
        self.node, self.rec = node, rec
        self.id = node['id']
        self.name = node.get('name', '')
        self.kind = node['kind']
        inner = [c for c in node.get('inner', []) if c]
        self.params = [c for c in inner if c.get('kind') == 'ParmVarDecl']
        self.body = next((c for c in inner if c.get('kind') == 'CompoundStmt'), None)
        self.inits = [c for c in inner if c.get('kind') == 'CXXCtorInitializer']
        self.static = node.get('storageClass') == 'static'
        qt = node.get('type', {}).get('qualType', '')
        self.qt = qt
        self.ret = qt[:qt.index('(')].strip() if '(' in qt else 'void'

    def __repr__(self):
        return f"{self.rec.name + '::' if self.rec else ''}{self.name}{self.qt[len(self.ret):]}"


class Rec:
    def __init__(self, node, parent):
        self.node, self.parent = node, parent
        self.id = node['id']
        self.name = node.get('name', '')
        self.fields = []      # FieldDecl nodes
        self.methods = []
        self.records = []
        self.statics = []
        self.bases = [b['type'] for b in node.get('bases', [])]
        self.spec = node['kind'] == 'ClassTemplateSpecializationDecl'

    def all_fields(self, prog):
        out = []
        for b in self.bases:
            br = prog.rec_by_type(b.get('desugaredQualType') or b['qualType'])
            if br: out += br.all_fields(prog)
        return out + self.fields

    def __repr__(self): return f"Rec({self.name})"


def _key(n):
    """Source position of a declaration: the same for a template pattern and its instances."""
    loc = n.get('loc', {})
    if 'expansionLoc' in loc: loc = loc['expansionLoc']
    return (n.get('name'), loc.get('offset'))


class Program:
    def __init__(self, header, inst='', pre='', defines=(), cache={}, std='c++17', extra_headers=()):
        self.header, self.inst, self.pre = header, inst, pre
        tu = '#include <bits/stdc++.h>\nusing namespace std;\n'
        tu += ''.join(f'#include <{h}>\n' for h in extra_headers)
        tu += f'namespace OrpVT {{\n{pre}\n#include "{header}"\n{inst}\n}}\n'
        self.tu = tu
        with tempfile.TemporaryDirectory(prefix='dvast') as d:
            p = os.path.join(d, 'tu.cpp')
            open(p, 'w').write(tu)
            cmd = [CLANG, f'-std={std}', '-I' + SRC, '-fsyntax-only', '-w'] + [f'-D{x}' for x in defines] + \
                  ['-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=OrpVT', p]
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
            if r.returncode != 0:
                raise ExtractError('clang rejects the header:\n' + r.stderr[:2000])
        s = r.stdout
        dec = json.JSONDecoder()
        i = 0
        self.tops = []
        while i < len(s):
            while i < len(s) and s[i].isspace(): i += 1
            if i >= len(s): break
            o, i = dec.raw_decode(s, i)
            self.tops.append(o)
        self.nodes = {}
        self.funcs = {}
        self.recs = []
        self.typedefs = {}
        self.pattern_types = {}   # (name, offset) -> qualType in the template pattern
        self.vars = {}
        self.enums = {}
        for t in self.tops: self._walk(t, None, False)

    # -- indexing
    def _walk(self, n, rec, pat):
        if not n: return
        k = n.get('kind', '')
        if 'Comment' in k: return
        if 'id' in n and 'Decl' in k and (n.get('inner') or n['id'] not in self.nodes):
            self.nodes[n['id']] = n
        if k in ('ClassTemplateDecl', 'FunctionTemplateDecl'):
            first = True
            for c in n.get('inner', []):
                ck = c.get('kind', '')
                if ck in ('CXXRecordDecl', 'FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl') and first:
                    first = False
                    self._walk(c, rec, True)
                else:
                    self._walk(c, rec, pat)
            return
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl'):
            if n.get('inner') and not n.get('isImplicit') and n.get('completeDefinition', True):
                r = Rec(n, rec)
                r.pattern = pat or k == 'ClassTemplatePartialSpecializationDecl'
                self.recs.append(r)
                if rec: rec.records.append(r)
                for c in n['inner']: self._walk(c, r, r.pattern)
            return
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            f = Func(n, rec)
            if pat:
                self._pat(n)
            else:
                old = self.funcs.get(f.id)
                if not (old and old.body and not f.body):
                    self.funcs[f.id] = f
                if rec is not None: rec.methods.append(f)
                self._locals(n)
            return
        if k == 'FieldDecl':
            if pat: self.pattern_types[_key(n)] = n['type']['qualType']
            elif rec is not None: rec.fields.append(n)
            return
        if k == 'VarDecl':
            if pat: self.pattern_types[_key(n)] = n['type']['qualType']
            else:
                if rec is not None: rec.statics.append(n)
                if n.get('inner') or n['id'] not in self.vars: self.vars[n['id']] = n
            return
        if k in ('TypedefDecl', 'TypeAliasDecl'):
            t = n['type']
            if not pat: self.typedefs[n['name']] = t.get('desugaredQualType') or t['qualType']
            else: self.typedefs.setdefault(n['name'], t.get('desugaredQualType') or t['qualType'])
            return
        if k == 'EnumDecl':
            val = -1
            for c in n.get('inner', []):
                if c.get('kind') == 'EnumConstantDecl':
                    v = self._const(c)
                    val = v if v is not None else val + 1
                    self.enums[c['id']] = val
            return
        for c in n.get('inner', []): self._walk(c, rec, pat)

    def _const(self, n):
        for c in n.get('inner', []):
            if c.get('kind') == 'ConstantExpr' and 'value' in c: return int(c['value'])
            if c.get('kind') == 'IntegerLiteral': return int(c['value'])
        return None

    def _pat(self, n):
        if not n: return
        if n.get('kind') in ('VarDecl', 'ParmVarDecl'): self.pattern_types[_key(n)] = n['type']['qualType']
        for c in n.get('inner', []): self._pat(c)

    def _locals(self, n):
        if not n: return
        k = n.get('kind', '')
        if 'id' in n and 'Decl' in k: self.nodes[n['id']] = n
        if k in ('TypedefDecl', 'TypeAliasDecl'):
            t = n['type']
            self.typedefs[n['name']] = t.get('desugaredQualType') or t['qualType']
        if k == 'VarDecl' and n.get('storageClass') == 'static': self.vars[n['id']] = n
        for c in n.get('inner', []): self._locals(c)

    # -- lookup
    def rec(self, name, parent=None):
        c = [r for r in self.recs if r.name == name and not r.pattern and (r.fields or r.methods)
             and (parent is None or (r.parent and r.parent.name == parent))]
        s = [r for r in c if r.spec or (r.parent and r.parent.spec)]
        c = s or c
        if not c: raise ExtractError(f'no class {name} in {self.header}')
        return c[-1]

    def rec_by_type(self, s):
        s = clean(s)
        base = strip_targs(s)
        parts = [p for p in base.split('::') if p]
        nm = parts[-1] if parts else ''
        # nested: Outer<..>::Inner
        c = [r for r in self.recs if r.name == nm and not r.pattern]
        if not c: return None
        if len(parts) >= 2:
            c2 = [r for r in c if r.parent and r.parent.name == parts[-2]]
            c = c2 or c
        # several specialisations of one template: match by template argument text
        if len(c) > 1 and '<' in s:
            want = re.sub(r'\s+', '', s[s.index('<'):])
            for r in c:
                if r.spec and self._targs(r) == want: return r
        c3 = [r for r in c if r.fields]
        return (c3 or c)[-1]

    def _targs(self, r):
        a = []
        for c in r.node.get('inner', []):
            if c.get('kind') == 'TemplateArgument':
                if 'type' in c: a.append(c['type']['qualType'])
                elif 'value' in c: a.append(str(c['value']))
                else: a.append('?')
        return re.sub(r'\s+', '', '<' + ','.join(a) + '>')

    def func(self, rec, name, npar=None, sel=None):
        ms = rec.methods if rec is not None else [f for f in self.funcs.values() if f.rec is None]
        c = [f for f in ms if f.name == name and (npar is None or len(f.params) == npar) and (f.body or npar is not None)]
        c = [f for f in c if f.body] or c
        if sel: c = [f for f in c if sel(f)]
        if not c: raise ExtractError(f'no function {name} in {rec.name if rec else self.header}')
        return c[0]

    def ctor(self, rec, sel=None):
        c = [f for f in rec.methods if f.kind == 'CXXConstructorDecl' and f.body is not None]
        if sel: c = [f for f in c if sel(f)]
        if not c: raise ExtractError(f'no constructor of {rec.name}')
        return c[0]

    # -- type parsing
    def ty(self, node_or_str, eng=None, decl=None):
        if isinstance(node_or_str, dict):
            t = node_or_str.get('type', node_or_str)
            s = t.get('desugaredQualType') or t['qualType']
        else:
            s = node_or_str
        pat = None
        if decl is not None: pat = self.pattern_types.get(_key(decl))
        return self._parse(s, eng, pat)

    def _parse(self, s, eng, pat=None):
        s = clean(s)
        if s.endswith('&&'): return T('ref', to=self._parse(s[:-2], eng))
        if s.endswith('&'):
            return T('ref', to=self._parse(s[:-1], eng, pat[:-1].strip() if pat and pat.strip().endswith('&') else None))
        m = re.search(r'\(\s*(const\s*)?([*&])\s*(const\s*)?\)\s*(\[.*\])$', s)   # pointer/reference to array
        if m:
            pm = re.search(r'\(\s*(const\s*)?([*&])\s*(const\s*)?\)\s*(\[.*\])$', pat) if pat else None
            inner = s[:m.start()].strip() + m.group(4)
            pin = (pat[:pm.start()].strip() + pm.group(4)) if pm else None
            return T('ptr' if m.group(2) == '*' else 'ref', to=self._parse(inner, eng, pin))
        if s.endswith(']'):
            i = _dim_split(s)
            base, dims = s[:i], re.findall(r'\[([^\]]*)\]', s[i:])
            pd = None
            if pat and clean(pat).endswith(']'):
                cp = clean(pat)
                j = _dim_split(cp)
                pd = re.findall(r'\[([^\]]*)\]', cp[j:])
            t = self._parse(base, eng)
            for n in range(len(dims) - 1, -1, -1):
                dim = None
                txt = pd[n] if pd and len(pd) == len(dims) else None
                if txt is not None and eng is not None: dim = eng.dim_expr(txt)
                if dim is None and dims[n].strip().isdigit(): dim = int(dims[n])
                t = T('arr', to=t, dim=dim)
            return t
        if re.search(r'\(\*\s*(const)?\s*\)\s*\(', s): return T('fn', name=s)
        if s.endswith('*'): return T('ptr', to=self._parse(s[:-1], eng))
        if s.endswith('* const') or s.endswith('*const'): return T('ptr', to=self._parse(s[:s.rindex('*')], eng))
        if re.search(r'\)\s*(const)?$', s) and '(' in s and '<' not in s.split('(')[0]: return T('fn', name=s)
        if s in ('bool', '_Bool'): return BOOL
        if s in ('double', 'float', 'long double'): return T('float', 32 if s == 'float' else 64)
        if s == 'void': return VOID
        if s in INTS:
            w, sg = INTS[s]
            return T('int', w, sg)
        if s in ('std::nullptr_t', 'nullptr_t'): return T('ptr', to=VOID)
        r = self.rec_by_type(s)
        if r: return T('rec', rec=r, name=s)
        base = s.split('::')[-1]
        if base in self.typedefs and self.typedefs[base] != s: return self._parse(self.typedefs[base], eng, pat)
        return T('rec', rec=None, name=s)


def _dim_split(s):
    """index where the trailing [..][..] begins"""
    i = len(s)
    while i > 0 and s[i - 1] == ']':
        d = 0
        j = i - 1
        while j >= 0:
            if s[j] == ']': d += 1
            elif s[j] == '[':
                d -= 1
                if d == 0: break
            j -= 1
        i = j
    return i


def clean(s):
    s = s.strip()
    s = re.sub(r'\b(const|volatile|struct|class|enum|typename)\b', ' ', s)
    s = re.sub(r'__attribute__\(\([^)]*\)\)', '', s)
    s = re.sub(r'\s+', ' ', s).strip()
    s = s.replace('OrpVT::', '')
    s = re.sub(r'\* +\*', '**', s)
    return s.strip()


def strip_targs(s):
    out, d = [], 0
    for ch in s:
        if ch == '<': d += 1
        elif ch == '>': d -= 1
        elif d == 0: out.append(ch)
    return ''.join(out)


def literals(header):
    """Numeric literals in the current source: a dictionary for the failing-input search."""
    txt = open(os.path.join(SRC, header)).read()
    txt = re.sub(r'/\*.*?\*/', ' ', txt, flags=re.S)
    txt = re.sub(r'//[^\n]*', ' ', txt)
    out = set()
    for m in re.finditer(r'(?<![\w.])(\d+\.\d*(?:[eE][-+]?\d+)?|\d+[eE][-+]?\d+|0[xX][0-9a-fA-F]+|\d+)(?:[uUlLfF]*)(?![\w.])', txt):
        v = m.group(1)
        try: out.add(float(int(v, 16)) if v.lower().startswith('0x') else float(v))
        except ValueError: pass
    return sorted(out)
