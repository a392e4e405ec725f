"""Specifications of the standard library used by the verified code (trusted base).

Containers are interpreted as mathematical sequences / finite maps; algorithms by their
[alg.*] specifications (first match, universally / existentially quantified predicates...).
"""
import z3
from .cxxtypes import *
from .values import *


def key_of(E, mty, v):
    v = E.rv(v)
    if E.T.is_id(mty.a):
        return v.get('id')
    return E.to_term(v, mty.a)


def ev(E, a):
    """evaluate an argument node"""
    return E.eval(a)


def rve(E, a):
    return E.rv(E.eval(a))


def args_of(nodes):
    return [a for a in nodes if a.get('kind') != 'CXXDefaultArgExpr']


def as_ref(E, x, ty=None):
    if isinstance(x, Ref):
        return x
    if ty is None:
        if isinstance(x, (StructV, MapV, OptV, PairV)):
            ty = x.ty
        elif isinstance(x, ArrV):
            ty = Ty('array', x.ety, name=x.n)
        elif isinstance(x, VecV):
            ty = VEC(x.ety)
        else:
            ty = VOID
    return E.new_cell(x, ty)


# ------------------------------------------------------------------- construction
def alloc(E, ty, ctor):
    """operator new: a fresh address, distinct from every address reachable so far"""
    a = E.fresh_term(BV64, 'new')
    E.assume(a != 0)
    for o in E.S.alive:
        E.assume(a != o)
    E.S.alive.append(a)
    E.S.trace_alloc = True
    if ty.k == 'struct':
        ref = HeapObj(E, ty.name, a)
        fa = z3.Function('allocated0', BV64, z3.BoolSort())
        E.assume(z3.Not(fa(a)))
        construct_into(E, ref, ty, ctor)
    return a


def construct_into(E, ref, ty, n):
    args = n.get('inner', [])
    ct = n.get('ctorType', {}).get('qualType', '')
    init_object(E, ref, ty, [E.eval(a) for a in args if a.get('kind') != 'CXXDefaultArgExpr'], ct)


def find_ctor(E, cls, ct, nargs=None):
    cs = E.prog.ctors.get(cls, {})
    if ct in cs and cs[ct] in E.prog.funcs:
        return cs[ct]
    import re
    norm = lambda s: re.sub(r'noexcept(\([^()]*\))?', '', s).replace('crg::', '').replace(' ', '')
    for s, m in cs.items():
        if norm(s) == norm(ct) and m in E.prog.funcs:
            return m
    if nargs is not None:
        c = []
        for s, m in cs.items():
            if m in E.prog.funcs and not E.prog.funcs[m][1].get('isImplicit'):
                ps = [x for x in E.prog.funcs[m][1].get('inner', []) if x.get('kind') == 'ParmVarDecl']
                if len(ps) == nargs:
                    c.append(m)
        if len(c) == 1:
            return c[0]
    return None


def is_copy_sig(E, ct, ty):
    import re
    m = re.match(r'^void \((const )?(.*?) ?&&?\)( noexcept(\([^()]*\))?)?$', ct)
    if not m or ',' in ct and '<' not in ct:
        return False
    try:
        return E.T.parse(m.group(2)) == ty
    except Unsupported:
        return False


def init_object(E, ref, ty, args, ct):
    if len(args) == 1 and is_copy_sig(E, ct, ty):
        v = E.rv(args[0])
        if isinstance(v, StructV) and v.ty != ty:
            v = E.slice(v, ty)
        m = find_ctor(E, ty.name, ct)
        if m and not E.prog.funcs[m][1].get('isImplicit') and not E.prog.funcs[m][1].get('explicitlyDefaulted'):
            E.run_ctor(m, ref, args)
            return
        for f, t, nn in E.T.fields(ty.name):
            if f:
                ref.field(E, f).set(v.get(f)) if t.k != 'ref' else None
        return
    m = find_ctor(E, ty.name, ct)
    if m is not None and (E.prog.funcs[m][1].get('explicitlyDefaulted') or E.prog.funcs[m][1].get('isImplicit')):
        m = None
    if m is None:
        if not args:
            v = E.default_struct(ty)
            for f, t, nn in E.T.fields(ty.name):
                if t.k != 'ref' and f:
                    ref.field(E, f).set(v.get(f))
            return
        raise Unsupported('constructor %s %s not found' % (ty.name, ct))
    # default member initialisers not mentioned in the ctor are materialised by clang as CXXDefaultInitExpr
    E.run_ctor(m, ref, args)


def construct(E, ty, args, ct, n):
    a = args_of(args)
    k = ty.k
    if k == 'struct':
        vals = [E.eval(x) for x in a]
        if len(vals) == 1 and is_copy_sig(E, ct, ty):
            m = find_ctor(E, ty.name, ct)
            if m is None or E.prog.funcs[m][1].get('isImplicit') or E.prog.funcs[m][1].get('explicitlyDefaulted'):
                v = E.rv(vals[0])
                if isinstance(v, StructV) and v.ty != ty:
                    v = E.slice(v, ty)
                return v
        if ty.name in E.vk.structs:
            if not vals:
                return E.uninit(ty)
            return E.rv(vals[0])
        cell = E.new_cell(StructV(E, ty, None, {}), ty)
        if not vals and find_ctor(E, ty.name, ct) is None:
            return E.default_struct(ty)
        # fields not initialised by the constructor keep their default initialiser
        E.S.store[cell.id] = LazyDefault(E, ty)
        init_object(E, cell, ty, vals, ct)
        return cell.get()
    if k == 'string':
        if not a:
            return E.strlit('')
        v = rve(E, a[0])
        if isinstance(v, z3.ExprRef) and v.sort() == E.T.sort(STR):
            return v
        return E.fresh_term(E.T.sort(STR), 'str')
    if k in ('vector', 'array'):
        if not a:
            return E.zero(ty)
        if len(a) == 1:
            x = rve(E, a[0])
            if isinstance(x, VecV):
                if k == 'vector' and isinstance(x, ArrV):
                    return VecV(E, ty.a, [E.coerce(y, ty.a) for y in x.conc]) if x.conc is not None else VecV(E, ty.a, None, x.len, x.arr)
                return x
            if isinstance(x, z3.ExprRef) and z3.is_bv(x):
                c = conc_int(x)
                if c is not None and c <= 64:
                    return VecV(E, ty.a, [E.zero(ty.a) for _ in range(c)])
                return VecV(E, ty.a, None, E.resize(x, U64, False), z3.K(BV64, E.to_term(E.zero(ty.a), ty.a)))
        if len(a) == 2:
            x, y = rve(E, a[0]), rve(E, a[1])
            if isinstance(x, IterV) and isinstance(y, IterV):
                return slice_vec(E, x, y)
            if isinstance(x, MapIter):
                raise Unsupported('vector from map range')
            if isinstance(x, z3.ExprRef) and z3.is_bv(x):
                c = conc_int(x)
                if c is not None and c <= 64:
                    return VecV(E, ty.a, [y] * c)
                return VecV(E, ty.a, None, E.resize(x, U64, False), z3.K(BV64, E.to_term(y, ty.a)))
        raise Unsupported('vector constructor')
    if k in ('map', 'set'):
        if not a:
            return E.zero(ty)
        x = rve(E, a[0])
        if isinstance(x, MapV):
            return x
        if isinstance(x, VecV) and x.conc is not None:
            m = E.zero(ty)
            for p in x.conc:
                if k == 'set':
                    kk = key_of(E, ty, p)
                    m = m.put(kk, None, p)
                else:
                    kk = key_of(E, ty, p.first if isinstance(p, PairV) else p.get('first'))
                    hv = m.has(kk)
                    if not z3.is_false(hv):
                        raise Unsupported('map literal with possibly equal keys')
                    m = m.put(kk, p.second, p.first)
            return m
        raise Unsupported('map constructor')
    if k == 'optional':
        if not a:
            return E.zero(ty)
        x = rve(E, a[0])
        if isinstance(x, OptV):
            return x
        if isinstance(x, OpaqueV) and x.what == 'nullopt':
            return E.zero(ty)
        return OptV(E, ty, z3.BoolVal(True), E.coerce(x, ty.a))
    if k == 'pair':
        if not a:
            return E.zero(ty)
        if len(a) == 1:
            x = rve(E, a[0])
            return x
        x, y = E.eval(a[0]), E.eval(a[1])
        fx = x if ty.a.k == 'ref' else E.coerce(E.rv(x), ty.a)
        fy = y if ty.b.k == 'ref' else E.coerce(E.rv(y), ty.b)
        return PairV(E, ty, fx, fy)
    if k in ('ptr',):
        if not a:
            return bv(0)
        return rve(E, a[0])
    if k == 'function':
        if not a:
            return bv(0)
        return rve(E, a[0])
    if k in ('iter', 'lambda'):
        if a:
            return rve(E, a[0])
        raise Unsupported('default iterator')
    if k == 'ref':
        return E.eval(a[0])
    if k == 'opaque':
        for x in a:
            try:
                E.eval(x)
            except Unsupported:
                pass
        return OpaqueV(ty.name)
    if k in ('int', 'bool', 'handle'):
        return rve(E, a[0]) if a else E.zero(ty)
    raise Unsupported('construct ' + repr(ty))


class LazyDefault(StructV):
    """object under construction"""

    def __init__(self, E, ty, f=None):
        StructV.__init__(self, E, ty, None, f or {})

    def get(self, name):
        if name in self.f:
            return self.f[name]
        t = self.E.T.field_ty(self.ty.name, name)
        if t.k == 'ref':
            raise Unsupported('uninitialised reference member')
        node = [x for a, tt, x in self.E.T.fields(self.ty.name) if a == name][0]
        init = self.E.field_init(node)
        v = self.E.conv_init(init, t, node.get('tu')) if init is not None else self.E.zero(t)
        self.f[name] = v
        return v

    def with_(self, name, v):
        f = dict(self.f)
        f[name] = v
        return LazyDefault(self.E, self.ty, f)

    def to_term(self):
        for f, t, n in self.E.T.fields(self.ty.name):
            if t.k != 'ref':
                self.get(f)
        return StructV.to_term(StructV(self.E, self.ty, None, dict(self.f)))


def slice_vec(E, b, e):
    v = b.vec.get()
    if not b.rev and conc_int(b.idx) == 0 and simp(e.idx).eq(simp(v.len)):
        return v if not isinstance(v, ArrV) else VecV(E, v.ety, v.conc, v.len, v.arr)
    cb, ce = conc_int(b.idx), conc_int(e.idx)
    if v.conc is not None and cb is not None and ce is not None and not b.rev:
        return VecV(E, v.ety, v.conc[cb:ce])
    j = z3.BitVec('j!sl', 64)
    if b.rev:
        return VecV(E, v.ety, None, simp(b.idx - e.idx), z3.Lambda([j], z3.Select(v.array(), b.idx - 1 - j)))
    return VecV(E, v.ety, None, simp(e.idx - b.idx), z3.Lambda([j], z3.Select(v.array(), b.idx + j)))


def assign(E, lv, v):
    ty = lv.ty.noref() if lv.ty is not None else None
    if ty is not None and ty.k == 'optional' and not isinstance(v, OptV):
        if isinstance(v, OpaqueV) and v.what == 'nullopt':
            v = E.zero(ty)
        else:
            v = OptV(E, ty, z3.BoolVal(True), E.coerce(v, ty.a))
    elif ty is not None and ty.k == 'vector' and isinstance(v, VecV):
        pass
    elif ty is not None and isinstance(v, OpaqueV):
        return lv
    elif ty is not None:
        if ty.k == 'struct' and isinstance(v, StructV) and v.ty != ty:
            v = E.slice(v, ty)
        v = E.coerce(v, ty)
    lv.set(v)
    return lv


# ------------------------------------------------------------------- predicates
class EqPred(Val):
    """x == value, as a predicate"""

    def __init__(self, E, val):
        self.val = val


def apply_fn(E, f, args):
    f = E.rv(f)
    if isinstance(f, EqPred):
        return eq_dispatch(E, args[0], f.val)
    if isinstance(f, LambdaV):
        return E.call_lambda(f, args)
    if isinstance(f, FnV) and f.mangled:
        return E.call_crg(f.mangled, None, args, {'type': {'qualType': 'bool'}})
    raise Unsupported('call of %r' % type(f))


def pred_at(E, f, ref):
    """truth value of a side-effect free predicate on the element behind ref"""
    s0 = E.S.ctr
    t0 = len(E.S.trace)
    r = E.merged(lambda: E.truth(apply_fn(E, f, [ref])))
    if len(E.S.trace) != t0:
        raise Unsupported('predicate with side effects')
    return r


def under_binder(E, vec, f, guard=None):
    """forall-ready term of the predicate at a bound index j"""
    j = z3.BitVec('j!b%d' % E.quant_depth, 64)
    E.quant_depth += 1
    # nested run so that the assumption on j does not leak
    try:
        base = len(E.run.pc)
        ctr0 = E.S.ctr

        def once():
            E.assume(z3.ULT(j, vec.get().len))
            sf = E.safety
            return pred_at(E, f, ElemRef(E, vec, j))
        res = E.explore(once)
        out = []
        vals = []
        asm = []
        for pc, s, k, v in res:
            if k != 'ok' or not E.unchanged(s):
                raise Unsupported('predicate is not a pure function')
            bc = [t for t, b in pc if b]
            out.append(z3.And(bc) if bc else z3.BoolVal(True))
            vals.append(v)
            asm += [z3.Implies(z3.And(bc) if bc else z3.BoolVal(True), t) for t, b in pc if not b]
        if not vals:
            raise PathEndProxy()
        E.S.ctr = max([E.S.ctr] + [s.ctr for _, s, _, _ in res])
        t = E.ite_chain(out, vals)
        fv = free_fresh(t, ctr0)
        if fv is not None:
            raise Unsupported('predicate depends on an unknown value ' + str(fv))
        return j, simp(t)
    finally:
        E.quant_depth -= 1


class PathEndProxy(Exception):
    pass


def free_fresh(t, ctr0):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            p = x.decl().name().split('!')
            if len(p) >= 3 and p[1].isdigit() and int(p[1]) > ctr0:
                return x
        st.extend(x.children() if not z3.is_quantifier(x) else [x.body()])
    return None


def range_of(E, b, e):
    b, e = E.rv(b), E.rv(e)
    if isinstance(b, PtrElem):
        b, e = IterV(b.vec, b.idx), IterV(e.vec, e.idx)
    return b, e


def conc_range(E, b, e):
    """indices if the range has a known small length"""
    cb, ce = conc_int(b.idx), conc_int(e.idx)
    if cb is None or ce is None:
        return None
    if b.rev:
        r = list(range(cb - 1, ce - 1, -1))
    else:
        r = list(range(cb, ce))
    return r if len(r) <= 64 else None


def in_range(j, b, e):
    if b.rev:
        return z3.And(z3.ULT(j, b.idx), z3.UGE(j, e.idx))
    return z3.And(z3.UGE(j, b.idx), z3.ULT(j, e.idx))


def find_generic(E, b, e, pred):
    """first position satisfying pred, else e"""
    r = conc_range(E, b, e)
    if r is not None:
        for i in r:
            if E.branch(pred_at(E, pred, ElemRef(E, b.vec, bv(i)))):
                return IterV(b.vec, bv(i + 1 if b.rev else i), b.rev)
        return e
    j, t = under_binder(E, b.vec, pred)
    x = E.fresh_term(BV64, 'found')
    if E.quant_depth > 0:
        r = FoundV(b.vec, x, b.rev)
        r.none, r.end = z3.Not(z3.Exists([j], z3.And(in_range(j, b, e), t))), e
        return r
    at = lambda y: z3.substitute(t, (j, y))
    if b.rev:
        # x in (e, b] : element x-1
        E.assume(z3.And(z3.ULE(x, b.idx), z3.UGE(x, e.idx)))
        E.assume(z3.ForAll([j], z3.Implies(z3.And(z3.UGE(j, x), z3.ULT(j, b.idx)), z3.Not(t))))
        E.assume(z3.Implies(z3.UGT(x, e.idx), at(x - 1)))
    else:
        E.assume(z3.And(z3.UGE(x, b.idx), z3.ULE(x, e.idx)))
        E.assume(z3.ForAll([j], z3.Implies(z3.And(z3.UGE(j, b.idx), z3.ULT(j, x)), z3.Not(t))))
        E.assume(z3.Implies(z3.ULT(x, e.idx), at(x)))
    return IterV(b.vec, x, b.rev)


def quant_generic(E, b, e, pred, mode):
    r = conc_range(E, b, e)
    if r is not None:
        ts = [E.truth(pred_at(E, pred, ElemRef(E, b.vec, bv(i)))) for i in r]
        if mode == 'any':
            return simp(z3.Or(ts)) if ts else z3.BoolVal(False)
        if mode == 'all':
            return simp(z3.And(ts)) if ts else z3.BoolVal(True)
        return simp(z3.Not(z3.Or(ts))) if ts else z3.BoolVal(True)
    j, t = under_binder(E, b.vec, pred)
    g = in_range(j, b, e)
    if mode == 'any':
        return z3.Exists([j], z3.And(g, t))
    if mode == 'all':
        return z3.ForAll([j], z3.Implies(g, t))
    return z3.ForAll([j], z3.Implies(g, z3.Not(t)))


def eq_dispatch(E, a, b):
    """operator== of the element type (the user-defined one if there is one)"""
    av, bvv = E.rv(a), E.rv(b)
    if isinstance(av, StructV) and av.ty.name.startswith('crg::'):
        if E.T.is_id(av.ty):
            return av.get('id') == bvv.get('id')
        sh = av.ty.name.split('::')[-1]
        c = [m for m in E.prog.find('crg::operator==', 2) if (' ' + E.prog.funcs[m][1]['type']['qualType']).count(sh) >= 2
             and ('const %s &' % sh) in E.prog.funcs[m][1]['type']['qualType'].replace('crg::', '')]
        if len(c) == 1:
            return E.truth(E.call_crg(c[0], None, [as_ref(E, a), as_ref(E, b)], {'type': {'qualType': 'bool'}}))
        raise Unsupported('operator== of ' + av.ty.name)
    return E.eq_val(av, bvv)


# ------------------------------------------------------------------- functions
def call_function(E, name, nodes, n):
    a = args_of(nodes)
    if name in ('move', 'forward', 'as_const', 'addressof', 'ref', 'cref', 'launder', '__addressof'):
        x = E.eval(a[0])
        if name in ('addressof', '__addressof'):
            return E.mkptr(x)
        return x
    if name in ('__assert_fail',):
        E.oblige('assertion in the code holds', z3.BoolVal(False), 'assert')
        from .engine import PathEnd
        raise PathEnd()
    if name in ('abort', 'terminate', 'exit', '__builtin_unreachable'):
        E.oblige('program is not aborted', z3.BoolVal(False), 'assert')
        from .engine import PathEnd
        raise PathEnd()
    if name in ('max', 'min', 'lowest') and not a:
        t = E.T.parse(n['type']).noref()
        if t.k != 'int':
            raise Unsupported('numeric limit of %s' % t.k)
        lo, hi = (-(1 << (t.w - 1)), (1 << (t.w - 1)) - 1) if t.s else (0, (1 << t.w) - 1)
        return z3.BitVecVal(hi if name == 'max' else lo, t.w)
    if name in ('max', 'min'):
        if len(a) == 1:
            x = rve(E, a[0])
            if isinstance(x, VecV) and x.conc:
                t = E.T.parse(n['type']).noref()
                r = x.conc[0]
                for y in x.conc[1:]:
                    c = (r < y if t.s else z3.ULT(r, y)) if name == 'max' else (y < r if t.s else z3.ULT(y, r))
                    r = simp(z3.If(c, y, r))
                return r
            raise Unsupported(name)
        x, y = rve(E, a[0]), rve(E, a[1])
        t = E.T.parse(n['type']).noref()
        if len(a) == 3 or not z3.is_bv(x):
            raise Unsupported(name + ' with comparator')
        lt = (lambda p, q: p < q) if t.s else z3.ULT
        # max returns the first if equal; values coincide
        return simp(z3.If(lt(x, y), y, x) if name == 'max' else z3.If(lt(y, x), y, x))
    if name == 'clamp':
        x, lo, hi = [rve(E, q) for q in a[:3]]
        t = E.T.parse(n['type']).noref()
        lt = (lambda p, q: p < q) if t.s else z3.ULT
        return simp(z3.If(lt(x, lo), lo, z3.If(lt(hi, x), hi, x)))
    if name == 'swap':
        x, y = E.eval(a[0]), E.eval(a[1])
        vx, vy = x.get(), y.get()
        x.set(vy)
        y.set(vx)
        return None
    if name == 'exchange':
        x = E.eval(a[0])
        v = x.get()
        x.set(E.coerce(rve(E, a[1]), x.ty.noref()))
        return v
    if name in ('find_if', 'find_if_not'):
        b, e = range_of(E, E.eval(a[0]), E.eval(a[1]))
        f = rve(E, a[2])
        if isinstance(b, MapIter):
            return map_find_if(E, b, e, f)
        if name == 'find_if_not':
            raise Unsupported(name)
        return find_generic(E, b, e, f)
    if name == 'find':
        b, e = range_of(E, E.eval(a[0]), E.eval(a[1]))
        v = E.eval(a[2])
        if isinstance(b, MapIter):
            raise Unsupported('find over map')
        return find_generic(E, b, e, EqPred(E, v))
    if name in ('any_of', 'all_of', 'none_of'):
        b, e = range_of(E, E.eval(a[0]), E.eval(a[1]))
        f = rve(E, a[2])
        if isinstance(b, MapIter):
            return map_quant(E, b, f, name[:-3])
        return quant_generic(E, b, e, f, name[:-3])
    if name in ('begin', 'cbegin', 'end', 'cend', 'rbegin', 'rend', 'size', 'data', 'empty'):
        r = as_ref(E, E.eval(a[0]))
        return call_method(E, r, name, [], n)
    if name in ('next', 'prev'):
        it = rve(E, a[0])
        d = rve(E, a[1]) if len(a) > 1 else bv(1)
        d = d if d.size() == 64 else z3.SignExt(64 - d.size(), d)
        if isinstance(it, IterV):
            s = 1 if (name == 'next') != it.rev else -1
            return IterV(it.vec, simp(it.idx + d if s > 0 else it.idx - d), it.rev)
        raise Unsupported(name + ' of map iterator')
    if name == 'distance':
        b, e = range_of(E, E.eval(a[0]), E.eval(a[1]))
        if isinstance(b, IterV):
            return simp(e.idx - b.idx) if not b.rev else simp(b.idx - e.idx)
        raise Unsupported('distance')
    if name == 'back_inserter':
        return Inserter(as_ref(E, E.eval(a[0])))
    if name in ('make_pair',):
        x, y = E.rv(E.eval(a[0])), E.rv(E.eval(a[1]))
        return PairV(E, E.T.parse(n['type']), x, y)
    if name in ('make_unique', 'make_shared'):
        ty = E.T.parse(n['type'])
        return make_owner(E, ty.a, a)
    if name in ('to_string', 'to_wstring'):
        v = rve(E, a[0])
        return z3.Function('to_string_%s' % str(v.sort()).replace(' ', ''), v.sort(), E.T.sort(STR))(v)
    if name in ('transform',):
        b, e = range_of(E, E.eval(a[0]), E.eval(a[1]))
        out = rve(E, a[2])
        f = rve(E, a[3])
        r = conc_range(E, b, e) if isinstance(b, IterV) else None
        if r is not None and isinstance(out, Inserter):
            for i in r:
                v = E.rv(apply_fn(E, f, [ElemRef(E, b.vec, bv(i))]))
                out.vec.set(out.vec.get().push(v))
            return out
        if isinstance(out, Inserter) and isinstance(b, IterV) and not b.rev:
            # pure mapping of a symbolic sequence
            j, t = map_term(E, b.vec, f, out.vec.ty.noref().a)
            o = out.vec.get()
            n_ = simp(e.idx - b.idx)
            k = z3.BitVec('k!tr', 64)
            arr = z3.Lambda([k], z3.If(z3.ULT(k, o.len), z3.Select(o.array(), k), z3.substitute(t, (j, k - o.len + b.idx))))
            out.vec.set(VecV(E, o.ety, None, simp(o.len + n_), arr))
            return out
        raise Unsupported('transform over symbolic range')
    if name == 'for_each':
        b, e = range_of(E, E.eval(a[0]), E.eval(a[1]))
        f = rve(E, a[2])
        r = conc_range(E, b, e) if isinstance(b, IterV) else None
        if r is not None:
            for i in r:
                apply_fn(E, f, [ElemRef(E, b.vec, bv(i))])
            return f
        raise Unsupported('for_each over symbolic range')
    if name == 'get':
        x = E.eval(a[0])
        raise Unsupported('std::get')
    if name in ('move_backward', 'copy', 'sort', 'stable_sort', 'unique', 'remove_if', 'remove', 'accumulate', 'count_if', 'count', 'lower_bound', 'fill', 'copy_if'):
        return alg_more(E, name, a, n)
    if name == 'tie':
        raise Unsupported('tie')
    if name == 'now':
        return E.fresh_term(z3.BitVecSort(64), 'now')
    if name == 'get_id' or name in ('setw', 'setfill', 'setprecision', 'setbase'):
        return OpaqueV(name)
    if name in ('floor', 'ceil', 'round', 'trunc', 'sqrt', 'abs', 'fabs', 'pow', 'log2', 'floorf', 'ceilf', 'fmod', 'modf'):
        v = [rve(E, x) for x in a]
        if all(isinstance(x, z3.ExprRef) and not z3.is_bv(x) for x in v):
            srt = E.T.sort(E.T.parse(n['type']).noref())
            return z3.Function('flt_' + name, *[x.sort() for x in v], srt)(*v)
    if name.startswith('operator""'):
        if a:
            return E.resize(rve(E, a[0]), I64, False)
        t = ''.join(ch for ch in n.get('text', '').replace("'", '') if ch.isdigit())
        if not t or not n['text'][:len(t)].isdigit():
            raise Unsupported('literal operator ' + name)
        return z3.BitVecVal(int(t), 64)
    if name in ('advance',):
        r = E.eval(a[0])
        it = r.get()
        d = rve(E, a[1])
        if isinstance(it, IterV):
            d = d if d.size() == 64 else z3.SignExt(64 - d.size(), d)
            r.set(IterV(it.vec, simp(it.idx - d if it.rev else it.idx + d), it.rev))
            return None
    if name == 'duration_cast':
        return rve(E, a[0])
    if name in ('memcpy', 'strlen', 'printf', 'memset'):
        raise Unsupported(name)
    raise Unsupported('library function ' + name)


def alg_more(E, name, a, n):
    if name in ('count', 'count_if'):
        b, e = range_of(E, E.eval(a[0]), E.eval(a[1]))
        r = conc_range(E, b, e) if isinstance(b, IterV) else None
        p = rve(E, a[2])
        if name == 'count':
            p = EqPred(E, p)
        if r is not None:
            s = bv(0)
            for i in r:
                s = s + z3.If(E.truth(pred_at(E, p, ElemRef(E, b.vec, bv(i)))), bv(1), bv(0))
            return simp(s)
    if name == 'copy':
        b, e = range_of(E, E.eval(a[0]), E.eval(a[1]))
        o = rve(E, a[2])
        if isinstance(o, Inserter) and isinstance(b, IterV):
            v = slice_vec(E, b, e)
            o.vec.set(concat(E, o.vec.get(), v))
            return o
    if name == 'fill':
        b, e = range_of(E, E.eval(a[0]), E.eval(a[1]))
        v = rve(E, a[2])
        o = b.vec.get()
        k = z3.BitVec('k!fl', 64)
        t = E.to_term(v, o.ety)
        b.vec.set(VecV(E, o.ety, None, o.len, z3.Lambda([k], z3.If(in_range(k, b, e), t, z3.Select(o.array(), k)))))
        return None
    if name == 'copy_if':
        b, e = range_of(E, E.eval(a[0]), E.eval(a[1]))
        o = rve(E, a[2])
        p = rve(E, a[3])
        r = conc_range(E, b, e) if isinstance(b, IterV) else None
        if r is not None and isinstance(o, Inserter):
            for i in r:
                el = ElemRef(E, b.vec, bv(i))
                if E.branch(pred_at(E, p, el)):
                    o.vec.set(o.vec.get().push(el.get()))
            return o
    raise Unsupported('library function ' + name)


def map_term(E, vec, f, ety):
    j = z3.BitVec('j!m%d' % E.quant_depth, 64)
    E.quant_depth += 1
    try:
        ctr0 = E.S.ctr

        def once():
            E.assume(z3.ULT(j, vec.get().len))
            return E.to_term(E.rv(apply_fn(E, f, [ElemRef(E, vec, j)])), ety)
        res = E.explore(once)
        conds, vals = [], []
        for pc, s, k, v in res:
            if k != 'ok' or not E.unchanged(s):
                raise Unsupported('mapping is not pure')
            bc = [t for t, b in pc if b]
            conds.append(z3.And(bc) if bc else z3.BoolVal(True))
            vals.append(v)
        E.S.ctr = max([E.S.ctr] + [s.ctr for _, s, _, _ in res])
        t = vals[-1]
        for c, v in list(zip(conds, vals))[:-1][::-1]:
            t = z3.If(c, v, t)
        t = simp(t)
        if free_fresh(t, ctr0):
            raise Unsupported('mapping depends on an unknown value')
        return j, t
    finally:
        E.quant_depth -= 1


def make_owner(E, ty, argnodes):
    vals = [E.eval(x) for x in argnodes]
    a = E.fresh_term(BV64, 'new')
    E.assume(a != 0)
    for o in E.S.alive:
        E.assume(a != o)
    fa = z3.Function('allocated0', BV64, z3.BoolSort())
    E.assume(z3.Not(fa(a)))
    E.S.alive.append(a)
    if ty.k == 'struct':
        ref = HeapObj(E, ty.name, a)
        if not vals:
            m = None
            cs = E.prog.ctors.get(ty.name, {})
            d = [mm for s, mm in cs.items() if s.startswith('void ()') and mm in E.prog.funcs and not E.prog.funcs[mm][1].get('isImplicit')
                 and not E.prog.funcs[mm][1].get('explicitlyDefaulted')]
            if d:
                E.run_ctor(d[0], ref, [])
            else:
                v = E.default_struct(ty)
                for f, t, nn in E.T.fields(ty.name):
                    if t.k != 'ref' and f:
                        ref.field(E, f).set(v.get(f))
            return a
        if len(vals) == 1 and isinstance(E.rv(vals[0]), StructV) and E.rv(vals[0]).ty == ty:
            v = E.rv(vals[0])
            for f, t, nn in E.T.fields(ty.name):
                if t.k != 'ref' and f:
                    ref.field(E, f).set(v.get(f))
            return a
        m = find_ctor(E, ty.name, '', len(vals))
        if m is None:
            # unique constructor accepting this many arguments (others defaulted)
            c = []
            for s, mm in E.prog.ctors.get(ty.name, {}).items():
                if mm in E.prog.funcs and not E.prog.funcs[mm][1].get('isImplicit'):
                    ps = [x for x in E.prog.funcs[mm][1].get('inner', []) if x.get('kind') == 'ParmVarDecl']
                    if len(ps) >= len(vals) and all(p.get('init') for p in ps[len(vals):]):
                        c.append(mm)
            if len(c) != 1:
                raise Unsupported('make_unique of ' + ty.name)
            m = c[0]
        E.run_ctor(m, ref, vals)
    elif ty.k in ('map', 'vector', 'set'):
        HeapCell(E, ty, a).set(E.rv(vals[0]) if vals else E.zero(ty))
    else:
        if vals:
            HeapCell(E, ty, a).set(E.rv(vals[0]))
    return a


def map_find_if(E, b, e, f):
    m = b.map.get()
    ks = E.T.ksort(m.ty.a)
    j = z3.Const('j!mf%d' % E.quant_depth, ks)
    t = map_pred(E, b.map, f, j)
    k = E.fresh_term(ks, 'fkey')
    end = E.fresh_term(z3.BoolSort(), 'fend')
    E.assume(z3.Implies(z3.Not(end), z3.And(z3.Select(m.dom, k), z3.substitute(t, (j, k)))))
    E.assume(z3.Implies(end, z3.ForAll([j], z3.Implies(z3.Select(m.dom, j), z3.Not(t)))))
    if m.ty.name == 'ordered' and z3.is_bv_sort(ks):
        E.assume(z3.Implies(z3.Not(end), z3.ForAll([j], z3.Implies(z3.And(z3.Select(m.dom, j), z3.ULT(j, k)), z3.Not(t)))))
    return MapIter(b.map, k, end)


def map_pred(E, mref, f, j):
    E.quant_depth += 1
    try:
        ctr0 = E.S.ctr

        def once():
            m = mref.get()
            E.assume(z3.Select(m.dom, j))
            el = MapPairRef(E, mref, j) if not m.isset else Const(E, m.keyval(j), m.ty.a)
            return pred_at(E, f, el)
        res = E.explore(once)
        conds, vals = [], []
        for pc, s, k, v in res:
            if k != 'ok' or not E.unchanged(s):
                raise Unsupported('predicate is not pure')
            bc = [t for t, b in pc if b]
            conds.append(z3.And(bc) if bc else z3.BoolVal(True))
            vals.append(v)
        E.S.ctr = max([E.S.ctr] + [s.ctr for _, s, _, _ in res])
        t = E.ite_chain(conds, vals)
        if free_fresh(t, ctr0):
            raise Unsupported('predicate depends on an unknown value')
        return simp(t)
    finally:
        E.quant_depth -= 1


def map_quant(E, b, f, mode):
    m = b.map.get()
    ks = E.T.ksort(m.ty.a)
    j = z3.Const('j!mq%d' % E.quant_depth, ks)
    t = map_pred(E, b.map, f, j)
    d = z3.Select(m.dom, j)
    if mode == 'any':
        return z3.Exists([j], z3.And(d, t))
    if mode == 'all':
        return z3.ForAll([j], z3.Implies(d, t))
    return z3.ForAll([j], z3.Implies(d, z3.Not(t)))


# ------------------------------------------------------------------- operators
def call_operator(E, name, argn, n):
    a = [E.eval(x) for x in argn]
    op = name[8:].strip()
    ts = argn[0]['type'].get('qualType', '') if isinstance(argn[0].get('type'), dict) else ''
    if op == '()' and ts.replace('const ', '').startswith(('hash<', 'std::hash<')):
        # std::hash: some function of the value
        v = E.rv(a[1])
        ty = E.T.parse(argn[1]['type']).noref()
        t = E.to_term(v, ty)
        return z3.Function('mix!hash!' + str(t.sort()), t.sort(), z3.BitVecSort(64))(t)
    x = E.rv(a[0])
    y = E.rv(a[1]) if len(a) > 1 else None
    if op in ('==', '!=') and (isinstance(x, FoundV) or isinstance(y, FoundV)):
        f, o = (x, y) if isinstance(x, FoundV) else (y, x)
        if isinstance(o, FoundV) or not (isinstance(o, IterV) and o.rev == f.rev and simp(o.idx).eq(simp(f.end.idx))):
            raise Unsupported('comparison of searches')
        return f.none if op == '==' else z3.Not(f.none)
    if op == '->':
        if isinstance(x, (IterV, MapIter)):
            r = E.iter_deref(x)
            return PtrRef(r) if not isinstance(r, HeapObj) else r.addr
        if isinstance(x, OptV):
            if E.safety:
                E.oblige('optional has a value', x.has, 'safety')
            return PtrRef(OptRef(E, as_ref(E, a[0])))
        return x      # smart pointer
    if op == '*' and len(a) == 1:
        if isinstance(x, (IterV, MapIter)):
            return E.iter_deref(x)
        if isinstance(x, OptV):
            if E.safety:
                E.oblige('optional has a value', x.has, 'safety')
            return OptRef(E, as_ref(E, a[0]))
        t = E.T.parse(argn[0]['type']).noref()
        return E.deref(x, t.a if t.k == 'ptr' else VOID)
    if op == '[]':
        if isinstance(x, VecV):
            i = y if y.size() == 64 else E.resize(y, U64, False)
            return E.elem(as_ref(E, a[0]), i)
        if isinstance(x, MapV):
            r = as_ref(E, a[0])
            k = key_of(E, x.ty, a[1])
            has = x.has(k)
            if not z3.is_true(has):
                dv = E.to_term(E.zero(x.ty.b), x.ty.b)
                cur = z3.Select(x.val, k)
                nv = simp(z3.If(has, cur, dv))
                m2 = x.put(k, None, y)
                m2 = MapV(E, x.ty, m2.dom, z3.Store(x.val, k, nv), m2.size, m2.kf)
                r.set(m2)
            return MapValRef(E, r, k)
        if isinstance(x, PtrElem):
            return E.elem(x.vec, simp(x.idx + E.resize(y, U64, True)))
        t = E.T.parse(argn[0]['type']).noref()
        raise Unsupported('operator[] on %r' % type(x))
    if op == '()':
        if isinstance(x, LambdaV):
            return E.call_lambda(x, a[1:])
        if isinstance(x, FnV) and x.mangled:
            return E.call_crg(x.mangled, None, a[1:], n)
        return E.call_opaque(E.member_name(argn[0]) or 'fn', x, a[1:], n)
    if op in ('++', '--'):
        r = a[0]
        v = r.get()
        d = 1 if op == '++' else -1
        if isinstance(v, IterV):
            if v.rev:
                d = -d
            nv = IterV(v.vec, simp(v.idx + d), v.rev)
        elif isinstance(v, MapIter):
            if d < 0:
                raise Unsupported('-- on map iterator')
            nv = map_next(E, v)
        else:
            raise Unsupported('++ on %r' % type(v))
        r.set(nv)
        return v if len(a) > 1 else r
    if op in ('==', '!='):
        if isinstance(x, StructV) and isinstance(y, StructV):
            e = eq_dispatch(E, a[0], a[1])
        elif isinstance(x, VecV) and isinstance(y, VecV):
            e = vec_eq(E, a[0], a[1])
        else:
            if isinstance(x, OpaqueV) or isinstance(y, OpaqueV):
                raise Unsupported('comparison of opaque values')
            e = E.eq_val(x, y)
        return simp(z3.Not(e)) if op == '!=' else e
    if op in ('+', '-') and isinstance(x, IterV):
        if isinstance(y, IterV):
            return simp(x.idx - y.idx) if not x.rev else simp(y.idx - x.idx)
        d = y if y.size() == 64 else z3.SignExt(64 - y.size(), y)
        plus = (op == '+') != x.rev
        return IterV(x.vec, simp(x.idx + d if plus else x.idx - d), x.rev)
    if op in ('+=', '-=') and isinstance(x, IterV):
        d = y if y.size() == 64 else z3.SignExt(64 - y.size(), y)
        plus = (op == '+=') != x.rev
        a[0].set(IterV(x.vec, simp(x.idx + d if plus else x.idx - d), x.rev))
        return a[0]
    if op in ('<', '>', '<=', '>='):
        if isinstance(x, IterV):
            f = {'<': z3.ULT, '>': z3.UGT, '<=': z3.ULE, '>=': z3.UGE}[op]
            return f(x.idx, y.idx) if not x.rev else f(y.idx, x.idx)
        if isinstance(x, z3.ExprRef):
            return z3.Function('cmp' + op, x.sort(), y.sort(), z3.BoolSort())(x, y)
    if op in ('+', '-', '+=', '-=') and z3.is_bv(x) and z3.is_bv(y) and x.size() == y.size() == 64:
        r = simp(x + y if op[0] == '+' else x - y)     # durations
        if len(op) == 2:
            a[0].set(r)
            return a[0]
        return r
    srt = E.T.sort(STR)
    if op in ('+', '+=') and isinstance(x, z3.ExprRef):
        ys = y
        if not (isinstance(y, z3.ExprRef) and y.sort() == srt):
            ys = z3.Function('str_of_' + (str(y.sort()).replace(' ', '') if isinstance(y, z3.ExprRef) else 'x'), y.sort(), srt)(y) if isinstance(y, z3.ExprRef) else E.fresh_term(srt, 'str')
        xs = x if x.sort() == srt else z3.Function('str_of_' + str(x.sort()).replace(' ', ''), x.sort(), srt)(x)
        r = z3.Function('str_concat', srt, srt, srt)(xs, ys)
        if op == '+=':
            a[0].set(r)
            return a[0]
        return r
    if op == '<<':
        # stream output: contents not modelled
        return a[0]
    if op == '*' and len(a) == 2:
        pass
    raise Unsupported('operator%s on %r' % (op, type(x)))


def vec_eq(E, a, b):
    x, y = E.rv(a), E.rv(b)
    ra, rb = as_ref(E, a), as_ref(E, b)
    if x.conc is not None and y.conc is not None:
        if len(x.conc) != len(y.conc):
            return z3.BoolVal(False)
        return simp(z3.And([E.truth(eq_dispatch(E, ElemRef(E, ra, bv(i)), ElemRef(E, rb, bv(i)))) for i in range(len(x.conc))] or [z3.BoolVal(True)]))
    if x.ety.k != 'struct':
        return E.eq_val(x, y)
    j = z3.BitVec('j!ve%d' % E.quant_depth, 64)
    E.quant_depth += 1
    try:
        def once():
            E.assume(z3.ULT(j, x.len))
            E.assume(x.len == y.len)
            return E.truth(eq_dispatch(E, ElemRef(E, ra, j), ElemRef(E, rb, j)))
        res = E.explore(once)
        conds, vals = [], []
        for pc, s, k, v in res:
            if k != 'ok':
                raise Unsupported('== throws')
            bc = [t for t, b in pc if b]
            conds.append(z3.And(bc) if bc else z3.BoolVal(True))
            vals.append(v)
        t = E.ite_chain(conds, vals)
    finally:
        E.quant_depth -= 1
    return z3.And(x.len == y.len, z3.ForAll([j], z3.Implies(z3.ULT(j, x.len), t)))


def map_begin(E, r):
    m = r.get()
    ks = E.T.ksort(m.ty.a)
    # deterministic in the container value
    k = E.fresh_term(ks, 'first')
    end = m.size == 0
    j = z3.Const('j!mb', ks)
    E.assume(z3.Implies(z3.Not(end), z3.Select(m.dom, k)))
    E.assume(z3.Implies(end, z3.ForAll([j], z3.Not(z3.Select(m.dom, j)))))
    if m.ty.name == 'ordered' and z3.is_bv_sort(ks):
        E.assume(z3.Implies(z3.Not(end), z3.ForAll([j], z3.Implies(z3.Select(m.dom, j), z3.ULE(k, j)))))
    return MapIter(r, k, simp(end))


def map_next(E, it):
    m = it.map.get()
    if m.ty.name != 'ordered':
        raise Unsupported('++ on unordered iterator')
    ks = E.T.ksort(m.ty.a)
    k = E.fresh_term(ks, 'next')
    end = E.fresh_term(z3.BoolSort(), 'nend')
    j = z3.Const('j!mn', ks)
    E.assume(z3.Implies(z3.Not(end), z3.And(z3.Select(m.dom, k), z3.UGT(k, it.key),
                                            z3.ForAll([j], z3.Implies(z3.And(z3.Select(m.dom, j), z3.UGT(j, it.key)), z3.ULE(k, j))))))
    E.assume(z3.Implies(end, z3.ForAll([j], z3.Implies(z3.Select(m.dom, j), z3.ULE(j, it.key)))))
    return MapIter(it.map, k, end)


def concat(E, o, v):
    if o.conc is not None and v.conc is not None:
        return VecV(E, o.ety, o.conc + v.conc)
    if o.conc is not None and not o.conc:
        return VecV(E, o.ety, v.conc, v.len, v.arr)
    k = z3.BitVec('k!cc', 64)
    return VecV(E, o.ety, None, simp(o.len + v.len), z3.Lambda([k], z3.If(z3.ULT(k, o.len), z3.Select(o.array(), k), z3.Select(v.array(), k - o.len))))


def vec_erase(E, v, i, cnt=1):
    c = conc_int(i)
    if v.conc is not None and c is not None:
        return VecV(E, v.ety, v.conc[:c] + v.conc[c + cnt:])
    k = z3.BitVec('k!er', 64)
    if E.ematch and E.quant_depth == 0 and conc_int(cnt) == 1:
        old = v.array()
        new = E.fresh_term(old.sort(), 'era')
        E.assume(z3.ForAll([k], z3.Implies(z3.ULT(k, i), z3.Select(new, k) == z3.Select(old, k)), patterns=[z3.Select(new, k), z3.Select(old, k)]))
        E.assume(z3.ForAll([k], z3.Implies(z3.UGE(k, i), z3.Select(new, k) == z3.Select(old, k + 1)), patterns=[z3.Select(new, k)]))
        E.assume(z3.ForAll([k], z3.Implies(z3.UGT(k, i), z3.Select(new, k - 1) == z3.Select(old, k)), patterns=[z3.Select(old, k)]))
        return VecV(E, v.ety, None, simp(v.len - 1), new)
    return VecV(E, v.ety, None, simp(v.len - cnt), z3.Lambda([k], z3.If(z3.ULT(k, i), z3.Select(v.array(), k), z3.Select(v.array(), k + cnt))))


def vec_insert(E, v, i, x):
    c = conc_int(i)
    if v.conc is not None and c is not None:
        return VecV(E, v.ety, v.conc[:c] + [x] + v.conc[c:])
    k = z3.BitVec('k!in', 64)
    t = E.to_term(x, v.ety)
    if E.ematch and E.quant_depth == 0:
        # a fresh array, with axioms that trigger on the elements of both; up and down say where an element went and came from
        old = v.array()
        new = E.fresh_term(old.sort(), 'ins')
        up = z3.Function(E.fresh_name('up', BV64), BV64, BV64)
        dn = z3.Function(E.fresh_name('dn', BV64), BV64, BV64)
        one = z3.BitVecVal(1, 64)
        E.assume(z3.Select(new, i) == t)
        E.assume(z3.ForAll([k], z3.Implies(z3.ULT(k, v.len), z3.And(up(k) == z3.If(z3.ULT(k, i), k, k + 1), dn(up(k)) == k, z3.Select(new, up(k)) == z3.Select(old, k))), patterns=[z3.Select(old, k)]))
        E.assume(z3.ForAll([k], z3.Implies(k != i, z3.And(dn(k) == z3.If(z3.ULT(k, i), k, k - 1), up(dn(k)) == k, z3.Select(new, k) == z3.Select(old, dn(k)))), patterns=[z3.Select(new, k)]))
        return VecV(E, v.ety, None, simp(v.len + 1), new)
    return VecV(E, v.ety, None, simp(v.len + 1), z3.Lambda([k], z3.If(z3.ULT(k, i), z3.Select(v.array(), k), z3.If(k == i, t, z3.Select(v.array(), k - 1)))))


def elem_value(E, ety, argn):
    """value built by emplace(args...)"""
    a = args_of(argn)
    vals = [E.eval(x) for x in a]
    return build(E, ety, vals)


def conversion(E, cls, ety):
    """the conversion function of the class that yields the type"""
    for m, (tu, fn) in E.prog.funcs.items():
        if fn.get('kind') != 'CXXConversionDecl' or E.prog.cls_of.get(m) != cls:
            continue
        try:
            t = E.T.parse(fn['type']['qualType'].split('(')[0].strip()).noref()
        except Unsupported:
            continue
        if t == ety:
            return m
    return None


def build(E, ety, vals):
    if len(vals) == 1:
        v = E.rv(vals[0])
        if ety.k == 'struct':
            if isinstance(v, StructV) and v.ty == ety:
                return v
            if isinstance(v, StructV):
                m = conversion(E, v.ty.name, ety)
                if m is not None:
                    this = vals[0] if isinstance(vals[0], Ref) else E.new_cell(v, v.ty)
                    return E.rv(E.call_crg(m, this, [], E.prog.funcs[m][1]))
        elif ety.k == 'optional' and not isinstance(v, OptV):
            return OptV(E, ety, z3.BoolVal(True), E.coerce(v, ety.a))
        else:
            return E.coerce(v, ety)
    if not vals:
        return E.zero(ety)
    if ety.k == 'pair' and len(vals) == 2:
        return PairV(E, ety, E.coerce(E.rv(vals[0]), ety.a), E.coerce(E.rv(vals[1]), ety.b))
    if ety.k == 'struct':
        c = []
        for s, mm in E.prog.ctors.get(ety.name, {}).items():
            if mm in E.prog.funcs and not E.prog.funcs[mm][1].get('isImplicit'):
                ps = [x for x in E.prog.funcs[mm][1].get('inner', []) if x.get('kind') == 'ParmVarDecl']
                if len(ps) >= len(vals) and all(p.get('init') for p in ps[len(vals):]):
                    if all(compat(E, E.T.parse(p['type']), v) for p, v in zip(ps, vals)):
                        c.append(mm)
        if len(c) == 1:
            cell = E.new_cell(LazyDefault(E, ety), ety)
            E.run_ctor(c[0], cell, vals)
            return cell.get()
        if not E.prog.ctors.get(ety.name) or ety.name in E.vk.structs:
            fl = E.T.fields(ety.name)
            return StructV(E, ety, None, {f: (E.coerce(E.rv(v), t)) for (f, t, nn), v in zip(fl, vals)})
    if ety.k == 'vector' and len(vals) == 2 and z3.is_bv(E.rv(vals[0])):
        c = conc_int(E.rv(vals[0]))
        if c is not None:
            return VecV(E, ety.a, [E.rv(vals[1])] * c)
    raise Unsupported('emplace of %r with %d arguments' % (ety, len(vals)))


def compat(E, ty, v):
    ty = ty.noref()
    v = E.rv(v)
    if isinstance(v, StructV):
        return ty.k == 'struct' and E.T.is_sub(v.ty.name, ty.name)
    if isinstance(v, z3.ExprRef):
        try:
            s = E.T.sort(ty)
        except Unsupported:
            return False
        return v.sort() == s or (z3.is_bv(v) and z3.is_bv_sort(s)) or (z3.is_bool(v) and z3.is_bv_sort(s))
    if isinstance(v, VecV):
        return ty.k in ('vector', 'array')
    if isinstance(v, (PtrRef, PtrElem)):
        return ty.k == 'ptr'
    if isinstance(v, LambdaV):
        return ty.k == 'function'
    return True


# ------------------------------------------------------------------- methods
def call_method(E, ref, name, nodes, n):
    nodes = args_of(nodes)
    v = ref.get() if isinstance(ref, Ref) and not isinstance(ref, HeapObj) else ref
    if name == 'operator=' and isinstance(ref, Ref) and len(nodes) == 1 and not isinstance(ref, HeapObj):
        return assign(E, ref, rve(E, nodes[0]))
    if isinstance(v, VecV):
        return vec_method(E, ref, v, name, nodes, n)
    if isinstance(v, MapV):
        return map_method(E, ref, v, name, nodes, n)
    if isinstance(v, OptV):
        if name in ('has_value', 'operator bool'):
            return v.has
        if name == 'value':
            E.oblige('optional has a value', v.has, 'safety') if E.safety else None
            return OptRef(E, as_ref(E, ref))
        if name == 'reset':
            ref.set(E.zero(v.ty))
            return None
        if name == 'value_or':
            d = rve(E, nodes[0])
            if v.val is None:
                return d
            return E.ite_chain([v.has, z3.Not(v.has)], [v.val, d])
        if name == 'emplace':
            ref.set(OptV(E, v.ty, z3.BoolVal(True), elem_value(E, v.ty.a, nodes)))
            return OptRef(E, ref)
    if isinstance(v, IterV):
        if name == 'base':
            return IterV(v.vec, v.idx, False)
    if isinstance(v, (LambdaV, FnV)) and name == 'operator bool':
        return z3.BoolVal(True)
    if isinstance(v, LambdaV) and name == 'operator()':
        return E.call_lambda(v, [E.eval(x) for x in nodes])
    if isinstance(v, PtrRef) or isinstance(v, z3.ExprRef) or isinstance(ref, HeapObj):
        ty = ref.ty.noref() if isinstance(ref, Ref) and ref.ty is not None else None
        if isinstance(ref, HeapObj):
            raise Unsupported('method %s of external class %s' % (name, ref.cls))
        if ty is not None and ty.k == 'string' or (isinstance(v, z3.ExprRef) and v.sort() == E.T.sort(STR)):
            return str_method(E, ref, v, name, nodes, n)
        if name == 'get':
            return v
        if name == 'operator bool':
            return E.truth(v)
        if name == 'reset':
            ref.set(rve(E, nodes[0]) if nodes else bv(0))
            return None
        if name == 'release':
            ref.set(bv(0))
            return v
        if ty is not None and ty.k == 'opaque':
            return opaque_method(E, ref, ty, name, nodes, n)
        if ty is not None and ty.k == 'function' and name == 'operator bool':
            return v != 0
    if isinstance(v, OpaqueV):
        return opaque_method(E, ref, Ty('opaque', name=v.what), name, nodes, n)
    raise Unsupported('method %s on %r' % (name, type(v)))


def opaque_method(E, ref, ty, name, nodes, n):
    for x in nodes:
        try:
            E.eval(x)
        except Unsupported:
            pass
    t = E.T.parse(n['type'])
    if t.k == 'void':
        return None
    return E.fresh(t, 'opq_' + name)


def str_method(E, ref, v, name, nodes, n):
    srt = E.T.sort(STR)
    if name in ('c_str', 'data'):
        return z3.Function('c_str', srt, BV64)(v)
    if name == 'empty':
        return v == E.strlit('')
    if name in ('size', 'length'):
        return z3.Function('strlen', srt, BV64)(v)
    for x in nodes:
        E.eval(x)
    t = E.T.parse(n['type']).noref()
    if t.k == 'string':
        nv = E.fresh_term(srt, 'str')
        return nv
    if t.k == 'void':
        return None
    return E.fresh(t, 'str_' + name)


def vec_method(E, ref, v, name, nodes, n):
    if name == 'size':
        return v.len
    if name == 'empty':
        return simp(v.len == 0)
    if name in ('begin', 'cbegin'):
        return IterV(as_ref(E, ref), bv(0))
    if name in ('end', 'cend'):
        return IterV(as_ref(E, ref), v.len)
    if name in ('rbegin', 'crbegin'):
        return IterV(as_ref(E, ref), v.len, True)
    if name in ('rend', 'crend'):
        return IterV(as_ref(E, ref), bv(0), True)
    if name == 'data':
        return PtrElem(as_ref(E, ref), bv(0))
    if name in ('front', 'back'):
        i = bv(0) if name == 'front' else simp(v.len - 1)
        return E.elem(as_ref(E, ref), i)
    if name == 'at':
        i = E.resize(rve(E, nodes[0]), U64, False)
        if not E.branch(z3.ULT(i, v.len)):
            from .engine import CppThrow
            raise CppThrow('out_of_range')
        return ElemRef(E, as_ref(E, ref), i)
    if name in ('push_back', 'emplace_back'):
        x = elem_value(E, v.ety, nodes) if name == 'emplace_back' else E.coerce(rve(E, nodes[0]), v.ety)
        v = ref.get()
        ref.set(v.push(x))
        return ElemRef(E, ref, simp(v.len)) if name == 'emplace_back' else None
    if name == 'clear':
        ref.set(VecV(E, v.ety, []))
        return None
    if name in ('reserve', 'shrink_to_fit'):
        for x in nodes:
            E.eval(x)
        return None
    if name == 'capacity':
        return E.fresh_term(BV64, 'capacity')
    if name == 'resize':
        s = E.resize(rve(E, nodes[0]), U64, False)
        x = rve(E, nodes[1]) if len(nodes) > 1 else E.zero(v.ety)
        cs = conc_int(s)
        if v.conc is not None and cs is not None and cs <= 64:
            ref.set(VecV(E, v.ety, v.conc[:cs] + [x] * (cs - len(v.conc))))
            return None
        k = z3.BitVec('k!rs', 64)
        t = E.to_term(x, v.ety)
        if v.conc == []:
            arr = z3.K(BV64, t)
        else:
            arr = z3.Lambda([k], z3.If(z3.ULT(k, v.len), z3.Select(v.array(), k), t))
        ref.set(VecV(E, v.ety, None, s, arr))
        return None
    if name == 'pop_back':
        if E.safety:
            E.oblige('pop_back on a non-empty vector', v.len != 0, 'safety')
        if v.conc is not None:
            ref.set(VecV(E, v.ety, v.conc[:-1]))
        else:
            ref.set(VecV(E, v.ety, None, simp(v.len - 1), v.array()))
        return None
    if name == 'erase':
        it = rve(E, nodes[0])
        if len(nodes) == 1:
            if E.safety:
                E.oblige('erase position is dereferenceable', z3.ULT(it.idx, v.len), 'safety')
            ref.set(vec_erase(E, v, it.idx))
            return IterV(ref, it.idx)
        e = rve(E, nodes[1])
        cb, ce = conc_int(it.idx), conc_int(e.idx)
        if cb is not None and ce is not None:
            ref.set(vec_erase(E, v, it.idx, ce - cb))
            return IterV(ref, it.idx)
        d = simp(e.idx - it.idx)
        k = z3.BitVec('k!er', 64)
        ref.set(VecV(E, v.ety, None, simp(v.len - d), z3.Lambda([k], z3.If(z3.ULT(k, it.idx), z3.Select(v.array(), k), z3.Select(v.array(), k + d)))))
        return IterV(ref, it.idx)
    if name in ('insert', 'emplace'):
        it = rve(E, nodes[0])
        if len(nodes) == 2 or name == 'emplace':
            x = elem_value(E, v.ety, nodes[1:])
            if E.safety:
                E.oblige('insert position is within the vector', z3.ULE(it.idx, v.len), 'safety')
            ref.set(vec_insert(E, v, it.idx, x))
            return IterV(ref, it.idx)
        if len(nodes) == 3:
            b, e = rve(E, nodes[1]), rve(E, nodes[2])
            if isinstance(b, IterV):
                sl = slice_vec(E, b, e)
                if simp(it.idx).eq(simp(v.len)):
                    ref.set(concat(E, v, sl))
                    return IterV(ref, it.idx)
        raise Unsupported('vector insert')
    if name == 'fill':
        x = rve(E, nodes[0])
        if v.conc is not None:
            ref.set(ArrV(E, v.ety, len(v.conc), [x] * len(v.conc)))
            return None
    if name == 'assign':
        a0 = rve(E, nodes[0])
        if isinstance(a0, VecV):
            ref.set(a0)
            return None
    if name == 'swap':
        o = E.eval(nodes[0])
        w = o.get()
        o.set(v)
        ref.set(w)
        return None
    raise Unsupported('vector method ' + name)


def pair_iter(E, it, b):
    return PairV(E, Ty('pair', Ty('iter', name='it'), BOOL), it, b)


def map_method(E, ref, m, name, nodes, n):
    ty = m.ty
    if name == 'size':
        return m.size
    if name == 'empty':
        return simp(m.size == 0)
    if name in ('begin', 'cbegin'):
        return map_begin(E, as_ref(E, ref))
    if name in ('end', 'cend'):
        ks = E.T.ksort(ty.a)
        return MapIter(as_ref(E, ref), z3.Const('endkey', ks), z3.BoolVal(True))
    if name in ('find', 'count', 'contains'):
        k = key_of(E, ty, E.eval(nodes[0]))
        has = m.has(k)
        if name == 'find':
            return MapIter(as_ref(E, ref), k, simp(z3.Not(has)))
        if name == 'count':
            return simp(z3.If(has, bv(1), bv(0)))
        return has
    if name == 'at':
        k = key_of(E, ty, E.eval(nodes[0]))
        if not E.branch(m.has(k)):
            from .engine import CppThrow
            raise CppThrow('out_of_range')
        return MapValRef(E, as_ref(E, ref), k)
    if name == 'clear':
        ref.set(E.zero(ty))
        return None
    if name == 'reserve':
        return None
    if name in ('try_emplace', 'emplace', 'insert', 'emplace_hint'):
        if name == 'emplace_hint':
            nodes = nodes[1:]
        if ty.k == 'set':
            if len(nodes) == 2:
                b, e = rve(E, nodes[0]), rve(E, nodes[1])
                return set_insert_range(E, ref, m, b, e)
            kv = build(E, ty.a, [E.eval(x) for x in nodes])
            k = key_of(E, ty, kv)
            has = m.has(k)
            m = ref.get()
            ref.set(m.put(k, None, kv))
            return pair_iter(E, MapIter(ref, k, z3.BoolVal(False)), simp(z3.Not(has)))
        if len(nodes) == 1 and name in ('insert', 'emplace'):
            p = rve(E, nodes[0])
            if isinstance(p, VecV):
                raise Unsupported('insert of a list')
            kv, nv = (p.first, p.second) if isinstance(p, PairV) else (p.get('first'), p.get('second'))
            kv, nv = E.rv(kv), E.rv(nv)
        elif len(nodes) == 2 and name == 'insert':
            b = rve(E, nodes[0])
            raise Unsupported('map range insert')
        else:
            kv = E.rv(E.eval(nodes[0]))
            if name == 'emplace' and len(nodes) > 2:
                raise Unsupported('piecewise emplace')
            kv = E.coerce(kv, ty.a)
            nv = build(E, ty.b, [E.eval(x) for x in nodes[1:]])
        m = ref.get()
        k = key_of(E, ty, kv)
        has = m.has(k)
        m2 = m.put(k, nv, kv)
        if z3.is_false(has):
            pass
        elif z3.is_true(has):
            m2 = m
        else:
            nvt = E.to_term(nv, ty.b)
            m2 = MapV(E, ty, m2.dom, z3.Store(m.val, k, simp(z3.If(has, z3.Select(m.val, k), nvt))), m2.size, m2.kf)
        ref.set(m2)
        return pair_iter(E, MapIter(ref, k, z3.BoolVal(False)), simp(z3.Not(has)))
    if name == 'insert_or_assign':
        kv = E.rv(E.eval(nodes[0]))
        nv = build(E, ty.b, [E.eval(x) for x in nodes[1:]])
        m = ref.get()
        k = key_of(E, ty, kv)
        has = m.has(k)
        ref.set(m.put(k, nv, kv))
        return pair_iter(E, MapIter(ref, k, z3.BoolVal(False)), simp(z3.Not(has)))
    if name == 'erase':
        x = E.eval(nodes[0])
        xv = E.rv(x)
        if isinstance(xv, MapIter):
            if E.safety:
                E.oblige('erase position is dereferenceable', z3.Not(xv.end), 'safety')
            nx = None
            ref.set(m.rem(xv.key))
            return OpaqueV('iterator')
        k = key_of(E, ty, x)
        has = m.has(k)
        ref.set(m.rem(k))
        return simp(z3.If(has, bv(1), bv(0)))
    raise Unsupported('map method ' + name)


def set_insert_range(E, ref, m, b, e):
    if isinstance(b, IterV):
        r = conc_range(E, b, e)
        if r is not None:
            for i in r:
                v = ElemRef(E, b.vec, bv(i)).get()
                m = m.put(key_of(E, m.ty, v), None, v)
            ref.set(m)
            return None
    raise Unsupported('set range insert')
