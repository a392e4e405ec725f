"""Mechanical extraction of the verified text.

Every run asks clang for the typed AST (JSON) of the translation units of /repo's
current working tree and indexes the function bodies found there.  Nothing is
edited by hand and nothing is cached between runs; what the verifier executes
symbolically is the AST of the very tokens the compiler sees (same defines, same
include path as the project's own build).
"""
import glob
import json
import os
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor

REPO = os.environ.get('CRGV_REPO', '/repo')
sys.setrecursionlimit(20000)


def version_defs():
    txt = open(os.path.join(REPO, 'CMakeLists.txt'), errors='replace').read()
    out = []
    for part in ('MAJOR', 'MINOR', 'BUILD'):
        m = re.search(r'VERSION_%s\s+"?(\d+)' % part, txt)
        out.append('-DCRG_VERSION_%s=%s' % (part, m.group(1) if m else '0'))
    return out


def cxxflags():
    return ['-std=c++17', '-I', REPO + '/include', '-I', REPO + '/source/RenderGraph',
            '-I', REPO + '/source', '-DCRG_BUILD_STATIC'] + version_defs()


def sources():
    return sorted(glob.glob(REPO + '/source/RenderGraph/**/*.cpp', recursive=True))


def split_json(s):
    d = json.JSONDecoder()
    i, n, out = 0, len(s), []
    while True:
        while i < n and s[i] != '{':
            i += 1
        if i >= n:
            return out
        o, i = d.raw_decode(s, i)
        out.append(o)


KEEP = {'id', 'kind', 'name', 'inner', 'type', 'mangledName', 'referencedDecl', 'referencedMemberDecl',
        'isArrow', 'opcode', 'isPostfix', 'value', 'castKind', 'init', 'valueCategory', 'ctorType',
        'anyInit', 'baseInit', 'hasElse', 'hasInit', 'hasVar', 'storageClass', 'previousDecl', 'bases',
        'tagUsed', 'explicitlyDefaulted', 'virtual', 'pure', 'isImplicit', 'computeResultType',
        'computeLHSType', 'array_filler', 'field', 'constexpr', 'parentDeclContextId', 'decl', 'ownedTagDecl',
        'isReferenced', 'completeDefinition', 'elidable', 'argType', 'list', 'loc_line', 'file', 'foundReferencedDecl',
        'isBitfield', 'mutable', 'scopedEnumTag', 'implicit'}


def prune(n, st):
    """drop source ranges but keep line numbers (clang prints file/line only when they change)"""
    if isinstance(n, list):
        return [prune(x, st) for x in n]
    if not isinstance(n, dict):
        return n
    def upd(l):
        if 'file' in l:
            st['file'] = l['file']
        if 'line' in l:
            st['line'] = l['line']
    def locs(l):
        if 'spellingLoc' in l or 'expansionLoc' in l:
            for k in ('spellingLoc', 'expansionLoc'):
                if k in l:
                    upd(l[k])
        else:
            upd(l)
    if isinstance(n.get('loc'), dict):
        locs(n['loc'])
    line = None
    if isinstance(n.get('range'), dict):
        locs(n['range'].get('begin', {}))
        line = st.get('line')
        f = st.get('file')
        locs(n['range'].get('end', {}))
    out = {}
    for k, v in n.items():
        if k in ('loc', 'range'):
            continue
        if k not in KEEP:
            continue
        if k in ('type', 'ctorType', 'argType', 'computeResultType', 'computeLHSType'):
            out[k] = {a: b for a, b in v.items() if a in ('qualType', 'desugaredQualType')}
            continue
        if k in ('referencedDecl', 'foundReferencedDecl', 'anyInit', 'field', 'decl', 'ownedTagDecl'):
            out[k] = {a: b for a, b in v.items() if a in ('id', 'kind', 'name', 'type', 'mangledName')} if isinstance(v, dict) else v
            continue
        if k in ('inner', 'array_filler'):
            out[k] = [prune(x, st) for x in v if isinstance(x, dict)]
        else:
            out[k] = v
    if n.get('kind') == 'UserDefinedLiteral' and isinstance(n.get('range'), dict):
        b = n['range'].get('begin', {})
        b = b.get('spellingLoc', b)
        try:
            with open(f, 'rb') as fh:
                fh.seek(b['offset'])
                out['text'] = fh.read(b['tokLen']).decode()
        except (OSError, KeyError, TypeError, NameError):
            pass
    if line is not None:
        out['line'] = line
        if n.get('kind', '').endswith('Decl'):
            out['file'] = f
    return out


class ExtractError(Exception):
    pass


def dump_tu(path):
    cmd = ['clang++'] + cxxflags() + ['-fsyntax-only', '-w', '-Xclang', '-ast-dump=json',
                                      '-Xclang', '-ast-dump-filter=crg', path]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise ExtractError('clang failed on %s: %s' % (path, r.stderr[:400]))
    st = {}
    return path, [prune(d, st) for d in split_json(r.stdout)]


FUNCS = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')


def body_of(n):
    for c in n.get('inner', []):
        if c.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
            return c
    return None


class Program:
    def __init__(self):
        self.decls = {}       # (tu, id) -> node
        self.funcs = {}       # mangled -> (tu, node) with body
        self.fdecls = {}      # mangled -> [ (tu,node) ] every declaration
        self.qname = {}       # mangled -> qualified name
        self.cls_of = {}      # mangled -> class qualified name
        self.records = {}     # qualified name -> {'fields': [...], 'bases': [...], 'tu':..., 'node':...}
        self.short = {}       # short name -> set(qualified)
        self.enums = {}       # qualified -> {const: value}
        self.enumconst = {}   # (tu,id) -> (value)
        self.aliases = {}     # short -> type string
        self.alias_t = {}     # short -> (template parameters, type string)
        self.alias_q = {}
        self.ctors = {}       # class qualified -> {signature: mangled}
        self.globals = {}     # (tu,id) -> VarDecl
        self.tus = []
        self.stripped = ({}, set())

    def add_tu(self, tu, docs):
        self.tus.append(tu)
        for d in docs:
            self._walk(tu, d, [], None)

    def _args_name(self, n):
        args = []
        for c in n.get('inner', []):
            if c.get('kind') == 'TemplateArgument':
                if 'type' in c:
                    args.append(c['type'].get('qualType', '?'))
                elif 'value' in c:
                    args.append(str(c['value']))
                else:
                    # template template argument: clang's JSON does not name it; tell the instances
                    # apart by what their fields became
                    txt = [(x.get('type') or {}).get('qualType', '') + (x.get('type') or {}).get('desugaredQualType', '')
                           for x in n.get('inner', []) if x.get('kind') == 'FieldDecl']
                    opt = sum('optional<' in t for t in txt)
                    args.append('?' if not txt else 'std::optional' if 2 * opt > len(txt) else 'crg::RawTypeT')
        return '<' + ', '.join(args) + '>'

    def _walk(self, tu, n, path, cls):
        k = n.get('kind')
        if k is None:
            return
        nid = n.get('id')
        if nid and k.endswith('Decl'):
            self.decls[(tu, nid)] = n
            n['tu'] = tu
        name = n.get('name', '')
        if k == 'NamespaceDecl':
            for c in n.get('inner', []):
                self._walk(tu, c, path + [name], None)
            return
        if k == 'LinkageSpecDecl':
            for c in n.get('inner', []):
                self._walk(tu, c, path, None)
            return
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            if k == 'ClassTemplateSpecializationDecl':
                name = name + self._args_name(n)
            if n.get('isImplicit') and cls:
                return
            # out-of-line definition of nested class
            q = '::'.join(path + [name])
            if n.get('completeDefinition') and not (n.get('templ')):
                fields = []
                for c in n.get('inner', []):
                    if c.get('kind') == 'FieldDecl':
                        fields.append((c.get('name', ''), c['type'], c))
                bases = [b['type'].get('desugaredQualType', b['type']['qualType']) for b in n.get('bases', [])]
                if q not in self.records or True:
                    self.records.setdefault(q, {'fields': fields, 'bases': bases, 'tu': tu, 'node': n,
                                                'union': n.get('tagUsed') == 'union'})
                self.short.setdefault(name, set()).add(q)
            for c in n.get('inner', []):
                self._walk(tu, c, path + [name], q)
            return
        if k == 'ClassTemplateDecl':
            for c in n.get('inner', []):
                if c.get('kind') == 'ClassTemplateSpecializationDecl':
                    self._walk(tu, c, path, cls)
                elif c.get('kind') == 'CXXRecordDecl':
                    c['templ'] = True
            return
        if k == 'ClassTemplatePartialSpecializationDecl':
            return
        if k == 'FunctionTemplateDecl':
            first = True
            for c in n.get('inner', []):
                if c.get('kind') in FUNCS:
                    if first:
                        c['is_template'] = True
                        self.decls[(tu, c.get('id'))] = c
                        c['tu'] = tu
                        c['qn'] = '::'.join(path + [c.get('name', '')])
                        first = False
                    else:
                        self._walk(tu, c, path, cls)
            return
        if k in FUNCS:
            m = n.get('mangledName')
            if cls is None and n.get('parentDeclContextId'):
                p = self.decls.get((tu, n['parentDeclContextId']))
                if p is not None and p.get('qn'):
                    cls = p['qn']
                elif p is not None:
                    cls = None
            prev = n.get('previousDecl')
            if prev and (tu, prev) in self.decls:
                pv = self.decls[(tu, prev)]
                if pv.get('cls'):
                    cls = pv['cls']
            n['cls'] = cls
            q = (cls + '::' + name) if cls else '::'.join(path + [name])
            n['qn'] = q
            if m is None:
                m = '%s@%s' % (q, n.get('type', {}).get('qualType', ''))
                n['mangledName'] = m
            self.qname[m] = q
            if cls:
                self.cls_of[m] = cls
            self.fdecls.setdefault(m, []).append((tu, n))
            if body_of(n) is not None and m not in self.funcs:
                self.funcs[m] = (tu, n)
            if k == 'CXXConstructorDecl' and cls:
                self.ctors.setdefault(cls, {}).setdefault(n['type']['qualType'], m)
            # local decls
            for c in n.get('inner', []):
                self._index_locals(tu, c)
            return
        if k == 'EnumDecl':
            q = '::'.join(path + [name]) if name else '::'.join(path + ['<anon>'])
            self.short.setdefault(name, set()).add(q)
            cur = -1
            consts = {}
            for c in n.get('inner', []):
                if c.get('kind') != 'EnumConstantDecl':
                    continue
                v = find_value(c)
                cur = v if v is not None else cur + 1
                consts[c['name']] = cur
                self.enumconst[(tu, c['id'])] = cur
            self.enums.setdefault(q, consts)
            under = re.search(r':', '')
            n['consts'] = consts
            return
        if k in ('TypeAliasDecl', 'TypedefDecl'):
            t = n['type'].get('desugaredQualType', n['type']['qualType'])
            self.aliases.setdefault(name, t)
            self.alias_q.setdefault('::'.join(path + [name]), t)
            return
        if k == 'VarDecl':
            self.globals[(tu, nid)] = n
            n['qn'] = '::'.join(path + [name])
            for c in n.get('inner', []):
                self._index_locals(tu, c)
            return
        if k == 'TypeAliasTemplateDecl':
            ps = [c.get('name') for c in n.get('inner', []) if c.get('kind') == 'TemplateTypeParmDecl']
            for c in n.get('inner', []):
                if c.get('kind') == 'TypeAliasDecl' and len(ps) == sum(x.get('kind', '').startswith('Template') for x in n['inner']):
                    self.alias_t.setdefault(name, (ps, c['type']['qualType']))
        if k in ('FriendDecl', 'FieldDecl', 'VarTemplateDecl', 'TypeAliasTemplateDecl'):
            for c in n.get('inner', []):
                if c.get('kind') in FUNCS or c.get('kind') in ('FunctionTemplateDecl', 'VarTemplateSpecializationDecl'):
                    if k == 'FriendDecl':
                        self._walk(tu, c, path[:1], None)
                    else:
                        self._walk(tu, c, path, cls)
            return

    def _index_locals(self, tu, n):
        k = n.get('kind', '')
        if n.get('id') and k.endswith('Decl'):
            self.decls.setdefault((tu, n['id']), n)
            if k in FUNCS:
                n.setdefault('tu', tu)
        for c in n.get('inner', []):
            self._index_locals(tu, c)

    # -- lookups
    def resolve_record(self, name):
        """qualified record name for a (possibly partially qualified) type name"""
        if name in self.records:
            return name
        if 'crg::' + name in self.records:
            return 'crg::' + name
        if len(self.stripped[1]) != len(self.records):
            self.stripped = ({}, set(self.records))
            for q in self.records:
                self.stripped[0].setdefault(re.sub(r'(\w+::)+', '', q).replace(' ', ''), set()).add(q)
        st = self.stripped[0].get(re.sub(r'(\w+::)+', '', name).replace(' ', ''))
        if st:
            base = name.split('<')[0]
            c2 = [q for q in st if q.split('<')[0] == base or q.split('<')[0].endswith('::' + base)]
            if len(c2) == 1:
                return c2[0]
            if '::' in base:
                return None
            if len(st) == 1 and '<' in name:
                return next(iter(st))
            return None
        if True:
            return None
        sh = name.split('<')[0].split('::')[-1] + ('<' + name.split('<', 1)[1] if '<' in name else '')
        c = self.short.get(sh)
        if c:
            c2 = [q for q in c if q.endswith('::' + name) or q == name]
            if len(c2) == 1:
                return c2[0]
            if len(c) == 1:
                return next(iter(c))
        return None

    def find(self, qn, nparams=None, sub=None):
        """mangled names of the defined functions with this qualified name"""
        out = []
        for m, q in self.qname.items():
            if q == qn and m in self.funcs:
                ps = [c for c in self.funcs[m][1].get('inner', []) if c.get('kind') == 'ParmVarDecl']
                if nparams is not None and len(ps) != nparams:
                    continue
                sig = self.funcs[m][1]['type']['qualType']
                if sub is not None and sub not in sig:
                    continue
                out.append(m)
        return sorted(out)


def find_value(n):
    if n.get('kind') == 'ConstantExpr' and 'value' in n:
        try:
            return int(n['value'])
        except ValueError:
            pass
    if n.get('kind') == 'IntegerLiteral':
        return int(n['value'])
    for c in n.get('inner', []):
        v = find_value(c)
        if v is not None:
            return v
    return None


def load(files=None):
    """extract the given source files (basename without extension, or None for all)"""
    srcs = sources() + [os.path.join(os.path.dirname(os.path.abspath(__file__)), f) for f in ('instantiate.cpp', 'clients.cpp')]
    if files is not None:
        want = set(files)
        srcs = [s for s in srcs if os.path.splitext(os.path.basename(s))[0] in want]
    p = Program()
    with ProcessPoolExecutor(max_workers=8) as ex:
        for tu, docs in ex.map(dump_tu, srcs):
            p.add_tu(os.path.basename(tu), docs)
    return p


# ---------------------------------------------------------------- Vulkan C header
class VkHeader:
    def __init__(self):
        self.text = ''
        for f in ('/usr/include/vulkan/vulkan_core.h',):
            self.text += open(f).read()
        self.structs = {}
        self.unions = set()
        self.consts = {}
        self.handles = set()
        self.pfn = {}
        self.alias = {}
        self._parse()

    def _parse(self):
        t = re.sub(r'/\*.*?\*/', '', self.text, flags=re.S)
        t = re.sub(r'//[^\n]*', '', t)
        for m in re.finditer(r'typedef\s+(struct|union)\s+(\w+)\s*\{(.*?)\}\s*(\w+)\s*;', t, re.S):
            fields = []
            for f in m.group(3).split(';'):
                f = f.strip()
                if not f or f.startswith('#'):
                    continue
                mm = re.match(r'(.*?)(\w+)\s*(\[[^;]*\])?\s*(:\s*\d+)?$', f, re.S)
                ty = ' '.join(mm.group(1).split())
                arr = mm.group(3)
                fields.append((mm.group(2), ty, arr))
            self.structs[m.group(4)] = fields
            if m.group(1) == 'union':
                self.unions.add(m.group(4))
        for m in re.finditer(r'typedef\s+enum\s+(\w+)\s*\{(.*?)\}\s*(\w+)\s*;', t, re.S):
            for e in m.group(2).split(','):
                e = e.strip()
                mm = re.match(r'(\w+)\s*=\s*(.+)$', e, re.S)
                if mm:
                    v = mm.group(2).strip()
                    try:
                        self.consts[mm.group(1)] = int(v, 0)
                    except ValueError:
                        if v in self.consts:
                            self.consts[mm.group(1)] = self.consts[v]
            self.alias[m.group(3)] = 'enum'
        # second pass for forward aliases
        for m in re.finditer(r'(\bVK_\w+)\s*=\s*(VK_\w+)', t):
            if m.group(1) not in self.consts and m.group(2) in self.consts:
                self.consts[m.group(1)] = self.consts[m.group(2)]
        for m in re.finditer(r'VK_DEFINE_(?:NON_DISPATCHABLE_)?HANDLE\((\w+)\)', t):
            self.handles.add(m.group(1))
        for m in re.finditer(r'typedef\s+(Vk\w+|uint32_t|uint64_t|int32_t)\s+(\w+)\s*;', t):
            self.alias[m.group(2)] = m.group(1)
        for m in re.finditer(r'typedef\s+([\w\s\*]+?)\s*\(VKAPI_PTR \*(PFN_\w+)\)\((.*?)\);', t, re.S):
            ps = []
            for a in m.group(3).split(','):
                a = ' '.join(a.split())
                if a == 'void':
                    continue
                mm = re.match(r'(.*?)(\w+)\s*(\[[^\]]*\])?$', a)
                ps.append((mm.group(2), mm.group(1).strip() + ('*' if mm.group(3) else '')))
            self.pfn[m.group(2)] = (m.group(1).strip(), ps)


if __name__ == '__main__':
    import time
    t = time.time()
    p = load(sys.argv[1:] or None)
    print(len(p.funcs), 'functions', len(p.records), 'records', time.time() - t)
    h = VkHeader()
    print(len(h.structs), len(h.consts), len(h.pfn), len(h.handles))
