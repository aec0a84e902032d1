"""Front end: clang's JSON AST of /repo's current headers -> functions, records, types.

Nothing of the C text is dropped or rewritten by hand: the translation unit below only #includes the headers,
clang parses (and preprocesses) it, and the engine walks the resulting AST.
"""
import json, os, re, subprocess, tempfile, hashlib

REPO = os.environ.get('VERIF_REPO', '/repo')
HEADERS = ['eml_common.h', 'eml_trees.h', 'eml_net.h', 'eml_net_fixedpoint.h', 'eml_array.h', 'eml_quantizer.h',
           'eml_neighbors.h', 'eml_bayes.h', 'eml_iir.h', 'eml_fft.h', 'eml_vector.h', 'eml_distance.h',
           'eml_audio.h', 'eml_mixture.h', 'eml_csv.h', 'eml_fileio.h', 'eml_benchmark.h', 'eml_test.h']


class FrontError(Exception):
    pass


class CT:
    """C type."""
    __slots__ = ('k', 'bits', 'signed', 'to', 'n', 'name')

    def __init__(self, k, bits=0, signed=False, to=None, n=None, name=None):
        self.k, self.bits, self.signed, self.to, self.n, self.name = k, bits, signed, to, n, name

    def __repr__(self):
        if self.k == 'int': return ('s' if self.signed else 'u') + str(self.bits)
        if self.k == 'float': return 'f%d' % self.bits
        if self.k == 'ptr': return repr(self.to) + '*'
        if self.k == 'array': return '%r[%s]' % (self.to, self.n)
        return '%s %s' % (self.k, self.name)

    @property
    def isint(self): return self.k in ('int', 'bool')
    @property
    def isfloat(self): return self.k == 'float'
    @property
    def lo(self):
        if self.k == 'bool': return 0
        return -(1 << (self.bits - 1)) if self.signed else 0
    @property
    def hi(self):
        if self.k == 'bool': return 1
        return (1 << (self.bits - 1)) - 1 if self.signed else (1 << self.bits) - 1


INT = CT('int', 32, True)
UINT = CT('int', 32, False)
LONG = CT('int', 64, True)
ULONG = CT('int', 64, False)
U8 = CT('int', 8, False)
S16 = CT('int', 16, True)
FLOAT = CT('float', 32)
DOUBLE = CT('float', 64)
VOID = CT('void', name='void')
BASE = {
    'char': CT('int', 8, True), 'signed char': CT('int', 8, True), 'unsigned char': U8,
    'short': S16, 'unsigned short': CT('int', 16, False),
    'int': INT, 'unsigned int': UINT, 'unsigned': UINT, 'long': LONG, 'unsigned long': ULONG,
    'long long': LONG, 'unsigned long long': ULONG, '_Bool': CT('bool', 8, False), 'bool': CT('bool', 8, False),
    'float': FLOAT, 'double': DOUBLE, 'long double': CT('float', 128), 'void': VOID,
    '__int128': CT('int', 128, True), 'unsigned __int128': CT('int', 128, False),
}


class Front:
    def __init__(self, ast):
        self.ast = ast
        self.functions = {}
        self.records = {}
        self.record_ids = {}
        self.typedefs = {}
        self.enums = {}
        self.enum_ct = {}
        self.decls = {}
        self.globals = {}
        self._tcache = {}
        self.anon = None
        for n in ast['inner']:
            self._top(n)

    def _top(self, n):
        k = n.get('kind')
        if k in ('LinkageSpecDecl',):
            for c in n.get('inner', []): self._top(c)
        elif k == 'FunctionDecl':
            if any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', [])):
                self.functions[n['name']] = n
            self.decls[n['id']] = n
        elif k == 'RecordDecl':
            self._record(n)
        elif k == 'TypedefDecl':
            self.typedefs[n['name']] = n
        elif k == 'EnumDecl':
            self._enum(n)
        elif k == 'VarDecl':
            self.globals[n['id']] = n

    def _record(self, n):
        if not any(c.get('kind') == 'FieldDecl' for c in n.get('inner', [])):
            return
        if n.get('name'):
            self.records['struct ' + n['name'] if False else n['name']] = n
        self.record_ids[n['id']] = n
        for c in n['inner']:
            if c.get('kind') == 'RecordDecl': self._record(c)

    def _enum(self, n):
        val = -1
        neg = False
        for c in n.get('inner', []):
            if c.get('kind') != 'EnumConstantDecl': continue
            v = find_value(c)
            val = v if v is not None else val + 1
            neg = neg or val < 0
            self.enums[c['id']] = val
            self.enums[c['name']] = val
        if n.get('name'): self.enum_ct[n['name']] = INT if neg else UINT
        self.enum_ct[n['id']] = INT if neg else UINT

    # ---- types
    def type_of(self, node):
        t = node['type']
        return self.parse(t.get('desugaredQualType') or t['qualType'], t['qualType'])

    def parse(self, s, alt=None):
        key = s
        if key in self._tcache: return self._tcache[key]
        r = self._parse(s)
        if 'unnamed' not in s: self._tcache[key] = r
        return r

    def _parse(self, s):
        s = s.strip()
        if '(*' in s or re.search(r'\)\s*$', s) and 'unnamed' not in s:
            return CT('ptr', 64, to=CT('func', name=s)) if '(*' in s else CT('func', name=s)
        m = re.match(r'^(.*?)((?:\[\d*\])+)$', s)
        if m:
            dims = [int(x) if x else None for x in re.findall(r'\[(\d*)\]', m.group(2))]
            t = self._parse(m.group(1))
            for d in reversed(dims): t = CT('array', to=t, n=d)
            return t
        s2 = re.sub(r'\b(const|volatile|restrict|__restrict|static|register)\b', '', s).strip()
        if s2.endswith('*'):
            return CT('ptr', 64, to=self._parse(s2[:-1]))
        s2 = re.sub(r'\s+', ' ', s2)
        if s2 in BASE: return BASE[s2]
        if 'unnamed' in s2 or 'anonymous' in s2:
            if self.anon is None: raise FrontError('anonymous record ' + s2)
            return CT('struct', name='#' + self.anon)
        for pre in ('struct ', 'union ', 'enum '):
            if s2.startswith(pre):
                nm = s2[len(pre):]
                if pre == 'enum ': return self.enum_ct.get(nm, UINT)
                if nm in self.records: return CT('struct', name=nm)
                return CT('opaque', name=nm)
        if s2 in self.typedefs:
            td = self.typedefs[s2]
            inner = td.get('inner', [])
            rec = self._td_record(td)
            if rec: return rec
            t = td['type']
            u = t.get('desugaredQualType') or t['qualType']
            if u == s2 or u.replace('struct ', '') == s2: u = t['qualType']
            if u == s2: return CT('opaque', name=s2)
            return self._parse(u)
        if s2 in self.enum_ct: return self.enum_ct[s2]
        if s2 in self.records: return CT('struct', name=s2)
        return CT('opaque', name=s2)

    def _td_record(self, td):
        def walk(n):
            o = n.get('ownedTagDecl') or n.get('decl')
            if o and o.get('kind') == 'RecordDecl' and o['id'] in self.record_ids:
                r = self.record_ids[o['id']]
                nm = r.get('name') or '@' + td['name']
                self.records.setdefault(nm, r)
                return CT('struct', name=nm)
            if o and o.get('kind') == 'EnumDecl' and o['id'] in self.enum_ct:
                return self.enum_ct[o['id']]
            for c in n.get('inner', []):
                if c.get('kind') in ('ElaboratedType', 'RecordType', 'EnumType', 'TypedefType'):
                    r = walk(c)
                    if r: return r
            return None
        return walk(td)

    def fields(self, name):
        """[(field name, CT)]"""
        r = self.record_ids[name[1:]] if name.startswith('#') else self.records[name]
        return [(c['name'], self.type_of(c)) for c in r['inner'] if c.get('kind') == 'FieldDecl']

    def sizeof(self, t):
        if t.k in ('int', 'float'): return t.bits // 8
        if t.k == 'bool': return 1
        if t.k == 'ptr': return 8
        if t.k == 'array': return t.n * self.sizeof(t.to)
        if t.k == 'void': return 1
        if t.k == 'struct':
            off, al = 0, 1
            for _, ft in self.fields(t.name):
                a = self.alignof(ft)
                off = (off + a - 1) // a * a + self.sizeof(ft)
                al = max(al, a)
            return (off + al - 1) // al * al
        raise FrontError('sizeof %r' % t)

    def alignof(self, t):
        if t.k == 'array': return self.alignof(t.to)
        if t.k == 'struct': return max(self.alignof(ft) for _, ft in self.fields(t.name))
        return self.sizeof(t)

    def params(self, fn):
        return [c for c in self.functions[fn]['inner'] if c.get('kind') == 'ParmVarDecl']

    def body(self, fn):
        return [c for c in self.functions[fn]['inner'] if c.get('kind') == 'CompoundStmt'][0]

    def rettype(self, fn):
        q = self.functions[fn]['type']
        s = q.get('desugaredQualType') or q['qualType']
        return self.parse(s[:s.index('(')].strip())


def find_value(n):
    if 'value' in n and n.get('kind') in ('ConstantExpr', 'IntegerLiteral'):
        return int(n['value'])
    for c in n.get('inner', []):
        v = find_value(c)
        if v is not None: return v
    return None


def load(extra='', flags=()):
    src = ''.join('#include <%s>\n' % h for h in HEADERS) + extra
    d = tempfile.mkdtemp(prefix='vc_ast_')
    try:
        p = os.path.join(d, 'tu.c')
        open(p, 'w').write(src)
        r = subprocess.run(['clang-18', '-fsyntax-only', '-w', '-I', os.path.join(REPO, 'emlearn'), *flags,
                            '-Xclang', '-ast-dump=json', p], capture_output=True)
        if r.returncode != 0:
            raise FrontError('clang: ' + r.stderr.decode()[:2000])
        return Front(json.loads(r.stdout))
    finally:
        subprocess.run(['rm', '-rf', d])


def load_source(code, flags=()):
    """A translation unit of generated code."""
    d = tempfile.mkdtemp(prefix='vc_ast_')
    try:
        p = os.path.join(d, 'tu.c')
        open(p, 'w').write(code)
        r = subprocess.run(['clang-18', '-fsyntax-only', '-w', '-I', os.path.join(REPO, 'emlearn'), *flags,
                            '-Xclang', '-ast-dump=json', p], capture_output=True)
        if r.returncode != 0:
            raise FrontError('clang: ' + r.stderr.decode()[:2000])
        return Front(json.loads(r.stdout))
    finally:
        subprocess.run(['rm', '-rf', d])


def int_fields(front, name):
    """[(field, bits, signed)] of a record by typedef or tag name."""
    t = front.parse(name)
    return [(n, ct.bits, ct.signed) for n, ct in front.fields(t.name)]
