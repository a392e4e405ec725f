"""C++ type strings -> Ty -> z3 sorts, and the value domain of the verifier."""
import re
import z3


class Unsupported(Exception):
    pass


class StaleHint(Exception):
    """a loop writes more than what another path through it wrote"""


class Ty:
    __slots__ = ('k', 'a', 'b', 'name', 'w', 's', '_key')

    def __init__(self, k, a=None, b=None, name=None, w=None, s=None):
        self.k, self.a, self.b, self.name, self.w, self.s = k, a, b, name, w, s
        self._key = (k, a.key if isinstance(a, Ty) else a, b.key if isinstance(b, Ty) else b, name, w, s)

    @property
    def key(self):
        return self._key

    def __eq__(self, o):
        return isinstance(o, Ty) and self._key == o._key

    def __hash__(self):
        return hash(self._key)

    def __repr__(self):
        if self.k == 'int':
            return ('i' if self.s else 'u') + str(self.w)
        if self.k in ('struct', 'opaque', 'handle'):
            return '%s' % self.name
        return self.k + ('<%s%s>' % (self.a, ', %s' % self.b if self.b is not None else '') if self.a is not None else '')

    def noref(self):
        return self.a if self.k == 'ref' else self


def INT(w, s):
    return Ty('int', w=w, s=s)


U8, U16, U32, U64 = INT(8, False), INT(16, False), INT(32, False), INT(64, False)
I8, I16, I32, I64 = INT(8, True), INT(16, True), INT(32, True), INT(64, True)
BOOL = Ty('bool')
VOID = Ty('void')
STR = Ty('string')
FLOAT = Ty('float', name='float')
PTR = lambda t: Ty('ptr', t)
VEC = lambda t: Ty('vector', t)

BUILTIN = {
    'bool': BOOL, 'void': VOID, '_Bool': BOOL,
    'char': I8, 'signed char': I8, 'unsigned char': U8, 'short': I16, 'unsigned short': U16,
    'int': I32, 'unsigned int': U32, 'unsigned': U32, 'long': I64, 'unsigned long': U64,
    'long long': I64, 'unsigned long long': U64,
    'uint8_t': U8, 'uint16_t': U16, 'uint32_t': U32, 'uint64_t': U64,
    'int8_t': I8, 'int16_t': I16, 'int32_t': I32, 'int64_t': I64, 'size_t': U64, 'std::size_t': U64,
    'size_type': U64, 'difference_type': I64, 'std::ptrdiff_t': I64, 'ptrdiff_t': I64,
    'float': FLOAT, 'double': Ty('float', name='double'), 'std::nullptr_t': Ty('ptr', VOID), 'nullptr_t': Ty('ptr', VOID),
    'std::string': STR, 'std::string_view': STR, 'string': STR, 'std::wstring': STR, 'basic_string': STR,
    'Str': STR,
}


def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([':
            d += 1
        elif ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class TypeCtx:
    def __init__(self, prog, vk):
        self.prog, self.vk = prog, vk
        self.cache = {}
        self.sorts = {}
        self.fields_cache = {}
        self.opaque_sorts = {}
        self.dt_names = {}

    # ------------------------------------------------------------------ parsing
    def parse(self, s):
        if isinstance(s, Ty):
            return s
        if isinstance(s, dict):
            q = s.get('desugaredQualType') or s.get('qualType')
            try:
                t = self.parse(q)
                if t.k in ('opaque',) and s.get('qualType') and s.get('qualType') != q:
                    t2 = self.parse(s['qualType'])
                    if t2.k != 'opaque':
                        return t2
                return t
            except Unsupported:
                return self.parse(s['qualType'])
        if s in self.cache:
            return self.cache[s]
        t = self._parse(s)
        self.cache[s] = t
        return t

    def _parse(self, s):
        s = s.strip()
        s0 = s
        s = re.sub(r'\bnoexcept\b', '', s).strip()
        while True:
            n = re.sub(r'^(const|volatile|struct|class|enum|union|typename|constexpr)\s+', '', s)
            if n == s:
                break
            s = n
        if s.endswith('&&'):
            return Ty('ref', self.parse(s[:-2]))
        if s.endswith('&'):
            return Ty('ref', self.parse(s[:-1]))
        if s.endswith('const') and not s[:-5][-1:].isalnum() and s[:-5].strip():
            return self.parse(s[:-5])
        if re.search(r'\(\*?\)\s*\(', s) or '(*)' in s:
            return Ty('function', name='fnptr')
        if s.startswith('(lambda') or '(lambda at' in s and not s.startswith('std::'):
            return Ty('lambda', name=s)
        if s.endswith('*'):
            inner = re.sub(r'^(struct|class)\s+', '', s[:-1].strip()).split('::')[-1]
            if inner.endswith('_T') and inner[:-2] in self.vk.handles:
                return Ty('handle', name=inner[:-2])        # typedef struct VkX_T * VkX
            return Ty('ptr', self.parse(s[:-1]))
        if s.endswith('*const'):
            return Ty('ptr', self.parse(s[:-6]))
        if s.endswith('*restrict'):
            return Ty('ptr', self.parse(s[:-9]))
        m = re.match(r'^(.*)\[(\w*)\]$', s)
        if m:
            n = m.group(2)
            if n and not n.isdigit():
                n = self.vk_define(n)
            return Ty('array', self.parse(m.group(1)), name=int(n) if n else 0)
        if s in BUILTIN:
            return BUILTIN[s]
        if s.startswith('PFN_'):
            return Ty('function', name=s)
        if '<' in s and s.endswith('>'):
            base, args = s[:s.index('<')], split_args(s[s.index('<') + 1:-1])
            b = base.split('::')[-1]
            isstd = base.startswith('std::') or '::' not in base or base.startswith('__gnu_cxx')
            if b in self.prog.alias_t and not base.startswith('std::') and len(self.prog.alias_t[b][0]) == len(args):
                ps, t = self.prog.alias_t[b]
                return self.parse(re.sub(r'\b(%s)\b' % '|'.join(map(re.escape, ps)), lambda m: args[ps.index(m.group(1))], t))
            if isstd:
                if b == 'vector' or b == 'deque' or b == 'list' or b == 'initializer_list':
                    return Ty('vector', self.parse(args[0]))
                if b == 'array':
                    return Ty('array', self.parse(args[0]), name=int(args[1].rstrip('uUlL')))
                if b in ('map', 'unordered_map'):
                    return Ty('map', self.parse(args[0]), self.parse(args[1]), name='ordered' if b == 'map' else 'unordered')
                if b in ('set', 'unordered_set'):
                    return Ty('set', self.parse(args[0]), name='ordered' if b == 'set' else 'unordered')
                if b in ('unique_ptr', 'shared_ptr', 'weak_ptr'):
                    return Ty('ptr', self.parse(args[0]), name='owner')
                if b == 'optional':
                    return Ty('optional', self.parse(args[0]))
                if b == 'function':
                    return Ty('function', name=args[0])
                if b == 'pair':
                    return Ty('pair', self.parse(args[0]), self.parse(args[1]))
                if b == 'basic_string' or b == 'basic_string_view':
                    return STR
                if b in ('__normal_iterator', '_Rb_tree_iterator', '_Rb_tree_const_iterator', '_Node_iterator',
                         '_Node_const_iterator', 'reverse_iterator', '_Self'):
                    return Ty('iter', name=s)
                if b in ('duration', 'time_point'):
                    return I64          # clock ticks
                if b in ('variant', 'tuple', 'chrono', 'duration', 'ratio', 'unique_lock', 'lock_guard', 'atomic', 'hash'):
                    return Ty('opaque', name=b)
                if b == 'reference_wrapper':
                    return Ty('ref', self.parse(args[0]))
        q = self.prog.resolve_record(self.norm_targs(s))
        if q:
            return Ty('struct', name=q)
        short = s.split('::')[-1]
        if short in self.vk.structs:
            return Ty('struct', name=short)
        if short in self.vk.handles or s.endswith('_T') and s[:-2].split('::')[-1] in self.vk.handles:
            return Ty('handle', name=short)
        if short.startswith('Vk') or short.startswith('PFN'):
            a = self.vk.alias.get(short)
            if a == 'enum' or short.endswith('FlagBits'):
                return Ty('int', w=32, s=True, name=short) if False else INT(32, True if not short.endswith('Flags') else False)
            if a:
                return self.parse(a)
        if s in self.prog.alias_q:
            return self.parse(self.prog.alias_q[s])
        # enum?
        for q, c in self.prog.enums.items():
            if q == s or q.endswith('::' + s):
                u = self.prog_enum_underlying(q)
                return INT(u, False)
        if short in self.prog.aliases:
            a = self.prog.aliases[short]
            if a != s:
                return self.parse(a)
        if short in ('iterator', 'const_iterator', 'reverse_iterator', 'const_reverse_iterator'):
            return Ty('iter', name=s)
        return Ty('opaque', name=s)

    def norm_targs(self, s):
        if '<' not in s:
            return s
        base, args = s[:s.index('<')], split_args(s[s.index('<') + 1:-1])
        out = []
        for a in args:
            r = self.prog.resolve_record(a)
            out.append(r or a)
        cand = base + '<' + ', '.join(out) + '>'
        return cand

    def prog_enum_underlying(self, q):
        return 32

    def vk_define(self, n):
        m = re.search(r'#define\s+%s\s+(\d+)' % n, self.vk.text)
        if m:
            return m.group(1)
        raise Unsupported('array bound ' + n)

    # ------------------------------------------------------------------ structs
    def fields(self, name):
        """[(field, Ty, init_node or None)] incl. inherited ones first"""
        if name in self.fields_cache:
            return self.fields_cache[name]
        if name in self.prog.records:
            r = self.prog.records[name]
            out = []
            for b in r['bases']:
                bq = self.prog.resolve_record(b)
                if bq:
                    out += self.fields(bq)
            for f, t, n in r['fields']:
                out.append((f, self.parse(t), n))
        elif name in self.vk.structs:
            out = []
            for f, t, arr in self.vk.structs[name]:
                ty = self.parse(t + (arr or '')) if not (arr and arr.count('[') > 1) else Ty('opaque', name='arr2')
                out.append((f, ty, None))
        else:
            raise Unsupported('unknown struct ' + name)
        self.fields_cache[name] = out
        return out

    def field_ty(self, name, f):
        for a, t, n in self.fields(name):
            if a == f:
                return t
        raise Unsupported('no field %s in %s' % (f, name))

    def declaring(self, name, f):
        """class in the hierarchy of `name` that declares f"""
        r = self.prog.records.get(name)
        if r is None:
            return name
        for a, t, n in r['fields']:
            if a == f:
                return name
        for b in r['bases']:
            bq = self.prog.resolve_record(b)
            if bq:
                d = self.declaring(bq, f)
                if d:
                    return d
        return None

    def is_sub(self, name, base):
        if name == base:
            return True
        r = self.prog.records.get(name)
        if not r:
            return False
        return any(self.is_sub(self.prog.resolve_record(b) or b, base) for b in r['bases'])

    def is_id(self, t):
        return t.k == 'struct' and t.name.startswith('crg::Id<')

    # ------------------------------------------------------------------ sorts
    def sort(self, t):
        if t in self.sorts:
            return self.sorts[t]
        s = self._sort(t)
        self.sorts[t] = s
        return s

    def opaque(self, n):
        if n not in self.opaque_sorts:
            self.opaque_sorts[n] = z3.DeclareSort(n)
        return self.opaque_sorts[n]

    def dtname(self, t):
        base = re.sub(r'[^A-Za-z0-9]+', '_', repr(t))
        if base in self.dt_names and self.dt_names[base] != t:
            base = base + '_%d' % len(self.dt_names)
        self.dt_names[base] = t
        return base

    def ksort(self, t):
        """sort of the key-equivalence class of a map/set key"""
        if self.is_id(t):
            return z3.BitVecSort(32)
        return self.sort(t)

    def _sort(self, t):
        k = t.k
        if k == 'int':
            return z3.BitVecSort(t.w)
        if k == 'bool':
            return z3.BoolSort()
        if k in ('ptr', 'handle', 'function', 'lambda', 'ref'):
            return z3.BitVecSort(64)
        if k == 'float':
            return self.opaque('Flt_' + t.name)
        if k == 'string':
            return self.opaque('Str')
        if k in ('opaque', 'iter', 'void'):
            return self.opaque('Opq_' + re.sub(r'[^A-Za-z0-9]+', '_', t.name or k))
        if k == 'vector':
            d = z3.Datatype(self.dtname(t))
            d.declare('mk', ('len', z3.BitVecSort(64)), ('arr', z3.ArraySort(z3.BitVecSort(64), self.sort(t.a))))
            return d.create()
        if k == 'array':
            d = z3.Datatype(self.dtname(t))
            d.declare('mk', ('arr', z3.ArraySort(z3.BitVecSort(64), self.sort(t.a))))
            return d.create()
        if k == 'map':
            ks = self.ksort(t.a)
            d = z3.Datatype(self.dtname(t))
            fs = [('dom', z3.ArraySort(ks, z3.BoolSort())), ('val', z3.ArraySort(ks, self.sort(t.b))), ('size', z3.BitVecSort(64))]
            if self.is_id(t.a):
                fs.append(('kf', z3.ArraySort(ks, self.sort(t.a))))
            d.declare('mk', *fs)
            return d.create()
        if k == 'set':
            ks = self.ksort(t.a)
            d = z3.Datatype(self.dtname(t))
            fs = [('dom', z3.ArraySort(ks, z3.BoolSort())), ('size', z3.BitVecSort(64))]
            if self.is_id(t.a):
                fs.append(('kf', z3.ArraySort(ks, self.sort(t.a))))
            d.declare('mk', *fs)
            return d.create()
        if k == 'optional':
            d = z3.Datatype(self.dtname(t))
            d.declare('mk', ('has', z3.BoolSort()), ('val', self.sort(t.a)))
            return d.create()
        if k == 'pair':
            d = z3.Datatype(self.dtname(t))
            d.declare('mk', ('first', self.sort(t.a)), ('second', self.sort(t.b)))
            return d.create()
        if k == 'struct':
            fl = self.fields(t.name)
            d = z3.Datatype(self.dtname(t))
            d.declare('mk', *([('%s.%s' % (t.name, f or 'anon%d' % i), self.sort(ft)) for i, (f, ft, n) in enumerate(fl)] or [('unit_', z3.BoolSort())]))
            return d.create()
        raise Unsupported('sort of ' + repr(t))
