"""Value domain: immutable rvalues and reference (lvalue) objects."""
import z3
from .cxxtypes import *

BV64 = z3.BitVecSort(64)


def bv(v, w=64):
    return z3.BitVecVal(v, w)


def is_conc(t):
    return z3.is_bv_value(t) or z3.is_true(t) or z3.is_false(t)


def simp(t):
    return z3.simplify(t)


def conc_int(t):
    """python int if t is (simplifies to) a literal, else None"""
    if isinstance(t, int):
        return t
    if z3.is_bv_value(t):
        return t.as_long()
    s = z3.simplify(t)
    if z3.is_bv_value(s):
        return s.as_long()
    return None


class Val:
    pass


class StructV(Val):
    __slots__ = ('ty', 'term', 'f', 'E')

    def __init__(self, E, ty, term=None, f=None):
        self.E, self.ty, self.term, self.f = E, ty, term, f or {}

    def get(self, name):
        if name in self.f:
            return self.f[name]
        if self.term is None:
            raise Unsupported('struct %s has no value for %s' % (self.ty.name, name))
        fl = self.E.T.fields(self.ty.name)
        srt = self.E.T.sort(self.ty)
        for i, (a, t, n) in enumerate(fl):
            if a == name:
                v = self.E.from_term(simp(srt.accessor(0, i)(self.term)), t)
                self.f[name] = v
                return v
        raise Unsupported('no field %s in %s' % (name, self.ty.name))

    def with_(self, name, v):
        f = dict(self.f)
        f[name] = v
        return StructV(self.E, self.ty, self.term, f)

    def to_term(self):
        if self.term is not None and not self.f:
            return self.term
        fl = self.E.T.fields(self.ty.name)
        srt = self.E.T.sort(self.ty)
        args = []
        for i, (a, t, n) in enumerate(fl):
            if a in self.f:
                args.append(self.E.to_term(self.f[a], t))
            elif self.term is not None:
                args.append(srt.accessor(0, i)(self.term))
            else:
                args.append(self.E.to_term(self.E.fresh(t, self.ty.name + '_' + a), t))
        if not fl:
            args = [z3.BoolVal(True)]
        return simp(srt.constructor(0)(*args))


class VecV(Val):
    """std::vector / array / initializer_list.  Either concrete list or (len, arr)."""
    __slots__ = ('ety', 'conc', 'len', 'arr', 'E')

    def __init__(self, E, ety, conc=None, len_=None, arr=None):
        self.E, self.ety, self.conc = E, ety, conc
        self.len, self.arr = (bv(len(conc)), None) if conc is not None else (len_, arr)

    def array(self):
        if self.arr is None:
            srt = self.E.T.sort(self.ety)
            if self.E.ematch and self.E.quant_depth == 0:
                self.arr = self.E.fresh_term(z3.ArraySort(BV64, srt), 'conc')
                for i, v in enumerate(self.conc):
                    self.E.assume(z3.Select(self.arr, bv(i)) == self.E.to_term(v, self.ety))
                return self.arr
            a = z3.K(BV64, self.E.default_term(srt))
            for i, v in enumerate(self.conc):
                a = z3.Store(a, bv(i), self.E.to_term(v, self.ety))
            self.arr = a
        return self.arr

    def sym(self):
        return VecV(self.E, self.ety, None, self.len, self.array())

    def get(self, i):
        if self.conc is not None:
            c = conc_int(i)
            if c is not None and 0 <= c < len(self.conc):
                return self.conc[c]
            if len(self.conc) and c is None and self.ety.k in ('int', 'bool', 'ptr', 'handle'):
                r = self.E.to_term(self.conc[-1], self.ety)
                for j in range(len(self.conc) - 2, -1, -1):
                    r = z3.If(i == bv(j), self.E.to_term(self.conc[j], self.ety), r)
                return r
        return self.E.from_term(simp(z3.Select(self.array(), i)), self.ety)

    def set(self, i, v):
        if self.conc is not None:
            c = conc_int(i)
            if c is not None and 0 <= c < len(self.conc):
                l = list(self.conc)
                l[c] = v
                return VecV(self.E, self.ety, l)
        return VecV(self.E, self.ety, None, self.len, z3.Store(self.array(), i, self.E.to_term(v, self.ety)))

    def push(self, v):
        if self.conc is not None:
            return VecV(self.E, self.ety, self.conc + [v])
        if self.E.ematch and self.E.quant_depth == 0:
            E, old, k = self.E, self.array(), z3.BitVec('k!pb', 64)
            new = E.fresh_term(old.sort(), 'push')
            E.assume(z3.Select(new, self.len) == E.to_term(v, self.ety))
            E.assume(z3.ForAll([k], z3.Implies(z3.ULT(k, self.len), z3.Select(new, k) == z3.Select(old, k)), patterns=[z3.Select(new, k), z3.Select(old, k)]))
            return VecV(E, self.ety, None, simp(self.len + 1), new)
        return VecV(self.E, self.ety, None, simp(self.len + 1), z3.Store(self.array(), self.len, self.E.to_term(v, self.ety)))

    def to_term(self):
        srt = self.E.T.sort(VEC(self.ety))
        return simp(srt.constructor(0)(self.len, self.array()))


class ArrV(VecV):
    """fixed-size array"""
    __slots__ = ('n',)

    def __init__(self, E, ety, n, conc=None, arr=None):
        VecV.__init__(self, E, ety, conc, bv(n), arr)
        if conc is None:
            self.len, self.arr = bv(n), arr
        self.n = n

    def set(self, i, v):
        r = VecV.set(self, i, v)
        return ArrV(self.E, self.ety, self.n, r.conc, r.arr)

    def to_term(self):
        srt = self.E.T.sort(Ty('array', self.ety, name=self.n))
        return simp(srt.constructor(0)(self.array()))


class MapV(Val):
    __slots__ = ('ty', 'dom', 'val', 'size', 'kf', 'E')

    def __init__(self, E, ty, dom, val, size, kf=None):
        self.E, self.ty, self.dom, self.val, self.size, self.kf = E, ty, dom, val, size, kf

    @property
    def isset(self):
        return self.ty.k == 'set'

    def has(self, k):
        return simp(z3.Select(self.dom, k))

    def at(self, k):
        return self.E.from_term(simp(z3.Select(self.val, k)), self.ty.b)

    def keyval(self, k):
        if self.kf is not None:
            v = self.E.from_term(simp(z3.Select(self.kf, k)), self.ty.a)
            return v.with_('id', k)
        return self.E.from_term(k, self.ty.a)

    def put(self, k, v, fullkey=None):
        val = None if self.isset else z3.Store(self.val, k, self.E.to_term(v, self.ty.b))
        kf = self.kf
        if kf is not None and fullkey is not None:
            kf = z3.If(z3.Select(self.dom, k), kf, z3.Store(kf, k, self.E.to_term(fullkey, self.ty.a)))
        size = simp(z3.If(z3.Select(self.dom, k), self.size, self.size + 1))
        return MapV(self.E, self.ty, z3.Store(self.dom, k, z3.BoolVal(True)), val, size, kf)

    def setval(self, k, v):
        return MapV(self.E, self.ty, self.dom, z3.Store(self.val, k, self.E.to_term(v, self.ty.b)), self.size, self.kf)

    def rem(self, k):
        size = simp(z3.If(z3.Select(self.dom, k), self.size - 1, self.size))
        return MapV(self.E, self.ty, z3.Store(self.dom, k, z3.BoolVal(False)), self.val, size, self.kf)

    def to_term(self):
        srt = self.E.T.sort(self.ty)
        a = [self.dom] + ([] if self.isset else [self.val]) + [self.size]
        if self.kf is not None:
            a.append(self.kf)
        return srt.constructor(0)(*a)


class OptV(Val):
    __slots__ = ('ty', 'has', 'val', 'E')

    def __init__(self, E, ty, has, val):
        self.E, self.ty, self.has, self.val = E, ty, has, val

    def to_term(self):
        srt = self.E.T.sort(self.ty)
        v = self.val if self.val is not None else self.E.default_value_term(self.ty.a)
        return simp(srt.constructor(0)(self.has, self.E.to_term(v, self.ty.a)))


class PairV(Val):
    __slots__ = ('ty', 'first', 'second', 'E')

    def __init__(self, E, ty, first, second):
        self.E, self.ty, self.first, self.second = E, ty, first, second

    def to_term(self):
        srt = self.E.T.sort(self.ty)
        return simp(srt.constructor(0)(self.E.to_term(self.first, self.ty.a), self.E.to_term(self.second, self.ty.b)))


class PtrRef(Val):
    """pointer to an engine-level lvalue"""
    __slots__ = ('ref',)

    def __init__(self, ref):
        self.ref = ref


class PtrElem(Val):
    """pointer into a contiguous sequence"""
    __slots__ = ('vec', 'idx')

    def __init__(self, vec, idx):
        self.vec, self.idx = vec, idx


class LambdaV(Val):
    __slots__ = ('node', 'env', 'this', 'tu', 'uid')

    def __init__(self, node, env, this, tu, uid):
        self.node, self.env, self.this, self.tu, self.uid = node, env, this, tu, uid


class FnV(Val):
    """pointer to a named function"""
    __slots__ = ('mangled', 'name')

    def __init__(self, mangled, name):
        self.mangled, self.name = mangled, name


class MethPtr(Val):
    __slots__ = ('name', 'ref')

    def __init__(self, ref, name):
        self.ref, self.name = ref, name


class IterV(Val):
    """iterator into a sequence"""
    __slots__ = ('vec', 'idx', 'rev')

    def __init__(self, vec, idx, rev=False):
        self.vec, self.idx, self.rev = vec, idx, rev


class FoundV(IterV):
    """outcome of a search inside a quantified predicate: only known to be found or not"""
    __slots__ = ('none', 'end')


class MapIter(Val):
    __slots__ = ('map', 'key', 'end')

    def __init__(self, map_, key, end):
        self.map, self.key, self.end = map_, key, end


class Inserter(Val):
    __slots__ = ('vec',)

    def __init__(self, vec):
        self.vec = vec


class OpaqueV(Val):
    __slots__ = ('what',)

    def __init__(self, what):
        self.what = what


# ------------------------------------------------------------------- references
class Ref:
    ty = None

    def field(self, E, name):
        return FieldRef(E, self, name)


class Cell(Ref):
    __slots__ = ('E', 'id', 'ty')

    def __init__(self, E, id_, ty):
        self.E, self.id, self.ty = E, id_, ty

    def get(self):
        return self.E.S.store[self.id]

    def set(self, v):
        self.E.S.store[self.id] = v
        self.E.note_write(('cell', self.id))

    def root(self):
        return ('cell', self.id)


def stable_addr(a):
    """name of an address that cannot vary while a function runs (its own object, a by-reference argument), else None"""
    if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and (a.decl().name() == 'this' or a.decl().name().startswith('arg_') and '!' not in a.decl().name()):
        return a.decl().name()
    return None


class HeapObj(Ref):
    """an object of class cls at address addr"""
    __slots__ = ('E', 'cls', 'addr', 'ty')

    def __init__(self, E, cls, addr):
        self.E, self.cls, self.addr = E, cls, addr
        self.ty = Ty('struct', name=cls)

    def field(self, E, name):
        d = E.T.declaring(self.cls, name)
        return HeapField(E, d, name, self.addr, E.T.field_ty(self.cls, name))

    def get(self):
        return StructV(self.E, self.ty, None, {f: self.field(self.E, f).get() for f, t, n in self.E.T.fields(self.cls) if t.k != 'ref' and f})

    def set(self, v):
        for f, t, n in self.E.T.fields(self.cls):
            if t.k != 'ref':
                self.field(self.E, f).set(v.get(f))

    def root(self):
        return ('heapobj', self.cls)


class HeapField(Ref):
    __slots__ = ('E', 'cls', 'name', 'addr', 'ty')

    def __init__(self, E, cls, name, addr, ty):
        self.E, self.cls, self.name, self.addr, self.ty = E, cls, name, addr, ty

    def get(self):
        a = self.E.heap_array(self.cls, self.name, self.ty)
        return self.E.from_term(simp(z3.Select(a, self.addr)), self.ty)

    def set(self, v):
        a = self.E.heap_array(self.cls, self.name, self.ty)
        self.E.S.heap[(self.cls, self.name)] = z3.Store(a, self.addr, self.E.to_term(v, self.ty))
        self.E.note_write(('heap', self.cls, self.name, stable_addr(self.addr)))

    def root(self):
        return ('heap', self.cls, self.name)


class HeapCell(Ref):
    """a non-class object behind a pointer (e.g. uint32_t *)"""
    __slots__ = ('E', 'ty', 'addr')

    def __init__(self, E, ty, addr):
        self.E, self.ty, self.addr = E, ty, addr

    def get(self):
        a = self.E.heap_array('*', repr(self.ty), self.ty)
        return self.E.from_term(simp(z3.Select(a, self.addr)), self.ty)

    def set(self, v):
        a = self.E.heap_array('*', repr(self.ty), self.ty)
        self.E.S.heap[('*', repr(self.ty))] = z3.Store(a, self.addr, self.E.to_term(v, self.ty))
        self.E.note_write(('heap', '*', repr(self.ty), stable_addr(self.addr)))

    def root(self):
        return ('heap', '*', repr(self.ty))


class FieldRef(Ref):
    __slots__ = ('E', 'base', 'name', 'ty')

    def __init__(self, E, base, name):
        self.E, self.base, self.name = E, base, name
        bt = base.ty
        if bt.k == 'pair':
            self.ty = bt.a if name == 'first' else bt.b
        else:
            self.ty = E.T.field_ty(bt.name, name)

    def get(self):
        b = self.base.get()
        if isinstance(b, PairV):
            return b.first if self.name == 'first' else b.second
        return b.get(self.name)

    def set(self, v):
        b = self.base.get()
        if isinstance(b, PairV):
            self.base.set(PairV(self.E, b.ty, v, b.second) if self.name == 'first' else PairV(self.E, b.ty, b.first, v))
            return
        if self.base.ty.name in self.E.T.vk.unions:
            self.base.set(StructV(self.E, self.base.ty, None, {self.name: v}))
            return
        self.base.set(b.with_(self.name, v))

    def root(self):
        return self.base.root()


class ElemRef(Ref):
    __slots__ = ('E', 'vec', 'idx', 'ty')

    def __init__(self, E, vec, idx):
        self.E, self.vec, self.idx = E, vec, idx
        self.ty = vec.ty.noref().a

    def get(self):
        return self.vec.get().get(self.idx)

    def set(self, v):
        self.vec.set(self.vec.get().set(self.idx, v))

    def root(self):
        return self.vec.root()


class MapValRef(Ref):
    __slots__ = ('E', 'map', 'key', 'ty')

    def __init__(self, E, map_, key):
        self.E, self.map, self.key = E, map_, key
        self.ty = map_.ty.noref().b

    def get(self):
        return self.map.get().at(self.key)

    def set(self, v):
        self.map.set(self.map.get().setval(self.key, v))

    def root(self):
        return self.map.root()


class MapPairRef(Ref):
    """*it of a map: .first read-only, .second by reference"""
    __slots__ = ('E', 'map', 'key', 'ty')

    def __init__(self, E, map_, key):
        self.E, self.map, self.key = E, map_, key
        t = map_.ty.noref()
        self.ty = Ty('pair', t.a, t.b)

    def field(self, E, name):
        if name == 'second':
            return MapValRef(E, self.map, self.key)
        return Const(E, self.map.get().keyval(self.key), self.ty.a)

    def get(self):
        m = self.map.get()
        return PairV(self.E, self.ty, m.keyval(self.key), m.at(self.key))

    def root(self):
        return self.map.root()


class OptRef(Ref):
    __slots__ = ('E', 'opt', 'ty')

    def __init__(self, E, opt):
        self.E, self.opt = E, opt
        self.ty = opt.ty.noref().a

    def get(self):
        return self.opt.get().val

    def set(self, v):
        o = self.opt.get()
        self.opt.set(OptV(self.E, o.ty, o.has, v))

    def root(self):
        return self.opt.root()


class Const(Ref):
    """temporary / read-only value treated as an lvalue"""
    __slots__ = ('E', 'v', 'ty')

    def __init__(self, E, v, ty):
        self.E, self.v, self.ty = E, v, ty

    def get(self):
        return self.v

    def set(self, v):
        raise Unsupported('write through constant reference')

    def root(self):
        return ('const',)
