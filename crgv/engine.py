"""Symbolic execution / verification-condition generator over the clang AST.

Paths are explored by deterministic re-execution with a decision list; calls to functions
that have a contract use the contract, loops with an invariant are cut at the
invariant, everything else is executed.
"""
import sys
import time
import z3
from .cxxtypes import *
from .values import *
from . import extract

sys.setrecursionlimit(60000)


class PathEnd(Exception):
    pass


class CppThrow(Exception):
    def __init__(self, what):
        self.what = what


class Return_(Exception):
    def __init__(self, v):
        self.v = v


class Break_(Exception):
    pass


class Continue_(Exception):
    pass


class Event:
    """one entry of the ghost trace"""
    __slots__ = ('name', 'args', 'ret', 'seen')

    def __init__(self, name, args, ret=None):
        self.name, self.args, self.ret, self.seen = name, args, ret, {}

    def __repr__(self):
        return 'Event(%s)' % self.name


class Segment:
    """n iterations, iteration k emitted the events make(k)"""

    def __init__(self, n, make, label=None):
        self.n, self.make, self.label = n, make, label
        self.name = '<segment>' if label is None else 'loop:' + label
        self.args, self.ret = {}, None

    def __repr__(self):
        return 'Segment'


class State:
    def __init__(self):
        self.store = {}
        self.heap = {}
        self.trace = []
        self.ctr = 0
        self.alive = []

    def copy(self):
        s = State()
        s.store = dict(self.store)
        s.heap = dict(self.heap)
        s.trace = list(self.trace)
        s.ctr = self.ctr
        s.alive = list(self.alive)
        return s


class Run:
    def __init__(self, forced, parent_pc, parent_key):
        self.forced = forced
        self.pos = 0
        self.taken = []
        self.pc = []          # (term, is_branch)
        self.parent_pc = parent_pc
        self.alts = []
        self.key = parent_key


class Obligation:
    def __init__(self, func, name, pc, goal, line, kind):
        self.func, self.name, self.pc, self.goal, self.line, self.kind = func, name, pc, goal, line, kind
        self.status = None
        self.model = None
        self.backend = None
        self.time = 0.0
        self.info = {}
        self.ematch = False
        self.slice = None


class Frame:
    def __init__(self, tu, fn, this):
        self.tu, self.fn, self.this = tu, fn, this
        self.vars = {}
        self.names = {}
        self.loopno = 0
        self.ret_ty = None
        self.contract = None
        self.depth = 0
        self.loopvars = []


class Loop:
    pass


class Engine:
    def __init__(self, prog, vk, contracts=None, unroll=3, branch_timeout=300):
        self.prog, self.vk = prog, vk
        self.T = TypeCtx(prog, vk)
        self.contracts = contracts or {}
        self.unroll = unroll
        self.bounded = False           # a loop was cut by unrolling in the current verification
        self.bounded_loops = set()
        self.use_invariants = True
        self.S = State()
        self.run = None
        self.frames = []
        self.obls = []
        self.obl_seen = set()
        self.curfn = '?'
        self.memo = {}
        self.use_hints = True
        self.branch_timeout = branch_timeout
        self.ematch = False
        self.uses = None
        self.tags = {}
        self.inlined = set()
        self.called_contracts = set()
        self.externs = set()
        self.fnset = []
        self.keep = []
        self.closures = {}
        self.ptrs = {}
        self.writes = None
        self.quant_depth = 0
        self.stats = {'branch_queries': 0, 'paths': 0}
        self.safety = True
        self.global_cells = {}
        self.deadline = None
        self.track_loops = []
        self.heap_sorts = {}

    # ---------------------------------------------------------------- basics
    def note_write(self, root):
        if self.writes is not None:
            self.writes.add(root)

    def heap_array(self, cls, f, ty):
        k = (cls, f)
        self.heap_sorts[k] = ty
        if k not in self.S.heap:
            self.S.heap[k] = z3.Const('H!%s.%s' % k, z3.ArraySort(BV64, self.T.sort(ty)))
        return self.S.heap[k]

    def is_new(self, a):
        """a was allocated by the code under verification"""
        return z3.Or([a == o for o in self.S.alive]) if self.S.alive else z3.BoolVal(False)

    def fresh_name(self, hint, srt):
        self.S.ctr += 1
        return '%s!%d!%s' % (hint, self.S.ctr, str(srt)[:24].replace(' ', ''))

    def fresh_term(self, srt, hint='v'):
        return z3.Const(self.fresh_name(hint, srt), srt)

    def fresh(self, ty, hint='v'):
        ty = ty.noref()
        if ty.k in ('void',):
            return None
        if ty.k == 'iter':
            return self.fresh_iter(ty, hint)
        t = self.fresh_term(self.T.sort(ty), hint)
        v = self.from_term(t, ty)
        self.type_inv(v, ty)
        return v

    def type_inv(self, v, ty):
        """representation facts of library containers (part of the trusted base)"""
        if ty.k == 'vector' and isinstance(v, VecV) and v.conc is None:
            self.assume(z3.ULE(v.len, bv(1 << 31)))
        elif ty.k in ('map', 'set'):
            ks = self.T.ksort(ty.a)
            k = z3.Const('k!ti', ks)
            self.assume(z3.ULE(v.size, bv(1 << 31)))
            self.assume(z3.ForAll([k], z3.Implies(z3.Select(v.dom, k), v.size != 0)))
            w = z3.Function('wit_' + str(self.T.sort(ty)), self.T.sort(ty), ks)
            if not (v.dom.decl().kind() == z3.Z3_OP_CONST_ARRAY):
                self.assume(z3.Or(v.size == 0, z3.Select(v.dom, w(v.to_term()))))
        elif ty.k == 'struct' and isinstance(v, StructV) and ty.name.startswith('crg::') and not self.T.is_id(ty):
            for f, t, n in self.T.fields(ty.name):
                if t.k in ('vector', 'map', 'set'):
                    self.type_inv(v.get(f), t)

    def default_term(self, srt):
        return z3.Const('dflt!' + str(srt).replace(' ', '')[:60], srt)

    def default_value_term(self, ty):
        return self.from_term(self.default_term(self.T.sort(ty)), ty)

    def from_term(self, t, ty):
        k = ty.k
        if k in ('int', 'bool', 'float', 'string', 'handle', 'opaque', 'iter'):
            return t
        if k in ('ptr', 'ref'):
            if z3.is_const(t) and t.decl().name() in self.ptrs:
                return self.ptrs[t.decl().name()]
            return t
        if k in ('function', 'lambda'):
            if z3.is_const(t) and t.decl().name() in self.closures:
                return self.closures[t.decl().name()]
            return t
        if k == 'struct':
            return StructV(self, ty, t)
        srt = self.T.sort(ty)
        acc = lambda i: simp(srt.accessor(0, i)(t))
        if k == 'vector':
            return VecV(self, ty.a, None, acc(0), acc(1))
        if k == 'array':
            return ArrV(self, ty.a, ty.name, None, acc(0))
        if k == 'map':
            return MapV(self, ty, acc(0), acc(1), acc(2), acc(3) if self.T.is_id(ty.a) else None)
        if k == 'set':
            return MapV(self, ty, acc(0), None, acc(1), acc(2) if self.T.is_id(ty.a) else None)
        if k == 'optional':
            return OptV(self, ty, acc(0), self.from_term(acc(1), ty.a))
        if k == 'pair':
            return PairV(self, ty, self.from_term(acc(0), ty.a), self.from_term(acc(1), ty.b))
        raise Unsupported('from_term ' + repr(ty))

    def to_term(self, v, ty):
        if isinstance(v, Ref):
            if ty.k == 'ref':
                return self.addr_of(v)
            v = v.get()
        if v is None:
            return self.default_term(self.T.sort(ty))
        if isinstance(v, z3.ExprRef):
            s = self.T.sort(ty)
            if v.sort() == s:
                return v
            if z3.is_bv(v) and z3.is_bv_sort(s):
                return self.resize(v, ty, False)
            if z3.is_bool(v) and z3.is_bv_sort(s):
                return z3.If(v, bv(1, s.size()), bv(0, s.size()))
            if z3.is_bv(v) and s == z3.BoolSort():
                return v != 0
            raise Unsupported('to_term sort mismatch %s vs %s' % (v.sort(), s))
        if isinstance(v, StructV):
            if v.ty != ty and ty.k == 'struct':
                v = self.slice(v, ty)
            return v.to_term()
        if isinstance(v, LambdaV):
            n = 'clo!%d' % v.uid
            self.closures[n] = v
            return z3.BitVec(n, 64)
        if isinstance(v, FnV):
            n = 'fn!' + v.name
            self.closures[n] = v
            return z3.BitVec(n, 64)
        if isinstance(v, (PtrRef, PtrElem)):
            n = self.ptr_name(v)
            self.ptrs[n] = v
            t = z3.BitVec(n, 64)
            if isinstance(v, PtrRef):
                self.assume(t != 0)
            return t
        if isinstance(v, (MapV, OptV, PairV, VecV)):
            t = v.to_term()
            if t.sort() != self.T.sort(ty):
                raise Unsupported('to_term container %s vs %s' % (t.sort(), self.T.sort(ty)))
            return t
        raise Unsupported('to_term %r' % type(v))

    def ptr_name(self, v):
        def d(r):
            if isinstance(r, Cell):
                return 'c%d' % r.id
            if isinstance(r, FieldRef):
                return d(r.base) + '.' + r.name
            if isinstance(r, ElemRef):
                return d(r.vec) + '[%s]' % simp(r.idx).sexpr()[:80]
            if isinstance(r, HeapField):
                return 'h%s.%s@%s' % (r.cls, r.name, simp(r.addr).sexpr()[:80])
            if isinstance(r, MapValRef):
                return d(r.map) + '{%s}' % simp(r.key).sexpr()[:80]
            if isinstance(r, OptRef):
                return d(r.opt) + '?'
            return 'x%d' % id(r)
        if isinstance(v, PtrRef):
            return 'ptr!' + d(v.ref)
        return 'ptre!' + d(v.vec) + '+' + simp(v.idx).sexpr()[:80]

    def slice(self, v, ty):
        return StructV(self, ty, None, {f: v.get(f) for f, t, n in self.T.fields(ty.name)})

    def rv(self, x):
        return x.get() if isinstance(x, Ref) else x

    def addr_of(self, ref):
        if isinstance(ref, HeapObj):
            return ref.addr
        if isinstance(ref, HeapCell):
            return ref.addr
        p = PtrElem(ref.vec, ref.idx) if isinstance(ref, ElemRef) else PtrRef(ref)
        return self.to_term(p, Ty('ptr', VOID))

    def deref(self, p, ty):
        """lvalue behind pointer value p of pointee type ty"""
        if isinstance(p, Ref):
            p = p.get()
        if isinstance(p, PtrRef):
            return p.ref
        if isinstance(p, PtrElem):
            return ElemRef(self, p.vec, p.idx)
        if isinstance(p, IterV):
            return self.iter_deref(p)
        if isinstance(p, z3.ExprRef):
            if z3.is_const(p) and p.decl().name() in self.ptrs:
                return self.deref(self.ptrs[p.decl().name()], ty)
            ty = ty.noref()
            if ty.k == 'struct':
                return HeapObj(self, ty.name, p)
            return HeapCell(self, ty, p)
        raise Unsupported('deref %r' % type(p))

    # ---------------------------------------------------------------- path control
    def full_pc(self):
        return self.run.parent_pc + [t for t, b in self.run.pc]

    def assume(self, t, branch=False):
        t = simp(t) if not z3.is_quantifier(t) else t
        if z3.is_true(t):
            return
        self.run.pc.append((t, branch))
        if z3.is_false(t):
            raise PathEnd()

    def assume_tagged(self, t, tag):
        n = len(self.run.pc)
        self.assume(t)
        for p, _ in self.run.pc[n:]:
            self.tags.setdefault(p.get_id(), (set(), p))[0].add(tag)

    def feasible(self, t):
        self.stats['branch_queries'] += 1
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        ps = [p for p in self.full_pc() if not has_quant(p)]
        for mk in (lambda: z3.SolverFor('QF_AUFBV'), z3.Solver):
            # the fast solver is only believed when it keeps the branch
            s = mk()
            s.set('timeout', self.branch_timeout)
            s.set('rlimit', 3000000)
            s.add(*ps)
            s.add(t)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.sat:
                return True
        return r != z3.unsat

    def next_decision(self, n, feas):
        r = self.run
        if r.pos < len(r.forced):
            d = r.forced[r.pos]
        else:
            opts = [i for i in range(n) if feas(i)]
            if not opts:
                raise PathEnd()
            d = opts[0]
            for o in opts[1:]:
                r.alts.append(r.taken + [o])
        r.pos += 1
        r.taken.append(d)
        return d

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = self.truth(cond)
        cond = simp(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        for t, b in self.run.pc:
            if t.eq(cond):
                return True
            if t.eq(simp(z3.Not(cond))):
                return False
        d = self.next_decision(2, lambda i: self.feasible(cond if i == 0 else z3.Not(cond)))
        self.assume(cond if d == 0 else z3.Not(cond), True)
        return d == 0

    def truth(self, v):
        v = self.rv(v)
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, z3.ExprRef):
            if z3.is_bool(v):
                return v
            if z3.is_bv(v):
                return v != 0
            if v.sort() == self.T.sort(STR):
                return z3.BoolVal(True)        # only pointers to literals are tested
            raise Unsupported('truth of sort %s' % v.sort())
        if isinstance(v, (PtrRef, LambdaV, FnV)):
            return z3.BoolVal(True)
        if isinstance(v, PtrElem):
            return self.to_term(v, Ty('ptr', VOID)) != 0
        if isinstance(v, OptV):
            return v.has
        raise Unsupported('truth of %r' % type(v))

    def explore(self, fn):
        """all paths of fn() from the current state.  Returns [(pc list, state, kind, value)]"""
        S0, run0, frames0 = self.S, self.run, self.frames
        base_pc = self.full_pc() if self.run else []
        key0 = (self.run.key + tuple(self.run.taken)) if self.run else ()
        results = []
        stack = [[]]
        while stack:
            forced = stack.pop()
            self.S = S0.copy()
            self.run = Run(forced, base_pc, key0)
            self.frames = list(frames0)
            self.stats['paths'] += 1
            if self.stats['paths'] > 60000:
                raise Unsupported('path explosion')
            try:
                v = fn()
                results.append((self.run.pc, self.S, 'ok', v))
            except CppThrow as e:
                results.append((self.run.pc, self.S, 'throw', e))
            except PathEnd:
                pass
            except (Return_, Break_, Continue_) as e:
                results.append((self.run.pc, self.S, 'ctl', e))
            finally:
                alts = self.run.alts
                self.S, self.run, self.frames = S0, run0, frames0
            stack.extend(alts)
        self.S, self.run, self.frames = S0, run0, frames0
        return results

    def unchanged(self, s):
        S = self.S
        for k, v in S.store.items():
            if s.store.get(k) is not v:
                return False
        for k, v in s.heap.items():
            if k in S.heap:
                if not (S.heap[k] is v or S.heap[k].eq(v)):
                    return False
            elif not (z3.is_const(v) and v.decl().name().startswith('H!')):
                return False
        return len(s.trace) == len(S.trace) and len(s.alive) == len(S.alive)

    def merged(self, fn):
        """run fn over all its paths; merge side-effect free paths returning scalars into one
        value, otherwise pick one of the outcomes (a decision of the enclosing run)"""
        if self.run is None:
            return fn()
        results = self.explore(fn)
        if not results:
            raise PathEnd()
        if len(results) == 1 and results[0][2] == 'ok':
            pc, s, k, v = results[0]
            self.adopt(pc, s)
            return v
        pure = all(k == 'ok' and self.unchanged(s) and self.mergeable(v) for pc, s, k, v in results)
        if pure:
            vals = [v for _, _, _, v in results]
            tys = {self.valsort(v) for v in vals}
            if len(tys) == 1:
                self.S.ctr = max(s.ctr for _, s, _, _ in results)
                for pc, s, k, v in results:
                    for kk, vv in s.heap.items():
                        self.S.heap.setdefault(kk, vv)
                    for kk, vv in s.store.items():
                        self.S.store.setdefault(kk, vv)
                conds = []
                for pc, s, k, v in results:
                    bc = z3.And([t for t, b in pc if b]) if any(b for t, b in pc) else z3.BoolVal(True)
                    conds.append(bc)
                    for t, b in pc:
                        if not b:
                            self.assume(z3.Implies(bc, t))
                if vals[0] is None:
                    return None
                return self.ite_chain(conds, vals)
        d = self.next_decision(len(results), lambda i: True)
        pc, s, k, v = results[d]
        self.adopt(pc, s)
        if k == 'ok':
            return v
        raise v

    def adopt(self, pc, s):
        self.S = s.copy()
        for t, b in pc:
            self.run.pc.append((t, b))

    def fresh_iter(self, ty, name):
        """an iterator into some sequence"""
        from .cxxtypes import split_args
        s = ty.name
        i = s.find('<')
        args = split_args(s[i + 1:s.rfind('>')]) if i >= 0 else []
        ct = None
        for a in args[1:]:
            t = self.T.parse(a)
            if t.k == 'vector':
                ct = t
        if ct is None:
            raise Unsupported('fresh iterator')
        cell = self.new_cell(self.fresh(ct, name + '_seq'), ct)
        return IterV(cell, self.fresh_term(BV64, name))

    def mergeable(self, v):
        return v is None or isinstance(v, (z3.ExprRef, bool)) or (isinstance(v, StructV))

    def valsort(self, v):
        if v is None:
            return None
        if isinstance(v, bool):
            return 'Bool'
        if isinstance(v, StructV):
            return v.ty.name
        return str(v.sort())

    def ite_chain(self, conds, vals):
        if isinstance(vals[0], StructV):
            ty = vals[0].ty
            fl = [f for f, t, n in self.T.fields(ty.name)]
            terms = [v.to_term() for v in vals]
            r = terms[-1]
            for c, t in list(zip(conds, terms))[:-1][::-1]:
                r = z3.If(c, t, r)
            fs = {}
            for f, t, n in self.T.fields(ty.name):
                if t.k in ('int', 'bool', 'ptr', 'handle', 'string', 'float', 'opaque', 'function'):
                    x = [self.to_term(v.get(f), t) for v in vals]
                    q = x[-1]
                    for c, tt in list(zip(conds, x))[:-1][::-1]:
                        q = z3.If(c, tt, q)
                    fs[f] = self.from_term(simp(q), t)
            return StructV(self, ty, simp(r), fs)
        terms = [z3.BoolVal(v) if isinstance(v, bool) else v for v in vals]
        r = terms[-1]
        for c, t in list(zip(conds, terms))[:-1][::-1]:
            r = z3.If(c, t, r)
        return simp(r)

    # ---------------------------------------------------------------- obligations
    def oblige(self, name, goal, kind='assert', line=None, info=None):
        goal = goal if z3.is_quantifier(goal) else simp(goal)
        if z3.is_true(goal):
            # still counted: discharged by simplification
            pass
        pc = self.full_pc()
        key = (name, goal.get_id(), tuple(t.get_id() for t in pc))
        self.keep.append((goal, pc))
        if key in self.obl_seen:
            return
        self.obl_seen.add(key)
        o = Obligation(self.curfn, name, pc, goal, line or self.line(), kind)
        o.ematch = self.ematch
        o.info = info or {}
        u = self.uses(name) if self.uses else None
        if u is not None:
            o.slice = [[p for p in pc if p.get_id() not in self.tags or any(x in v for x in self.tags[p.get_id()][0])] for v in (u if u and isinstance(u[0], list) else [u])]
        self.obls.append(o)

    def line(self):
        return getattr(self, 'curline', None)

    # ---------------------------------------------------------------- integers
    def resize(self, v, to, from_signed):
        if z3.is_bool(v):
            v = z3.If(v, bv(1, 8), bv(0, 8))
            from_signed = False
        w = v.size()
        if to.k == 'bool':
            return v != 0
        tw = to.w if to.k == 'int' else 64
        if tw == w:
            return v
        if tw < w:
            return simp(z3.Extract(tw - 1, 0, v))
        return simp(z3.SignExt(tw - w, v) if from_signed else z3.ZeroExt(tw - w, v))

    def zero(self, ty):
        k = ty.k
        if k == 'int':
            return bv(0, ty.w)
        if k == 'bool':
            return z3.BoolVal(False)
        if k in ('ptr', 'handle', 'function'):
            return bv(0)
        if k == 'string':
            return self.strlit('')
        if k == 'float':
            return z3.Const('flt!0', self.T.sort(ty))
        if k == 'struct':
            if ty.name in self.T.vk.unions:
                return StructV(self, ty, z3.Const('zero!' + ty.name, self.T.sort(ty)))
            return self.default_struct(ty)
        if k == 'vector':
            return VecV(self, ty.a, [])
        if k == 'array':
            return ArrV(self, ty.a, ty.name, [self.zero(ty.a) for _ in range(ty.name)] if ty.name <= 512 else None,
                        None if ty.name <= 512 else z3.K(BV64, self.to_term(self.zero(ty.a), ty.a)))
        if k in ('map', 'set'):
            ks = self.T.ksort(ty.a)
            val = None if k == 'set' else z3.K(ks, self.default_term(self.T.sort(ty.b)))
            kf = z3.K(ks, self.default_term(self.T.sort(ty.a))) if self.T.is_id(ty.a) else None
            return MapV(self, ty, z3.K(ks, z3.BoolVal(False)), val, bv(0), kf)
        if k == 'optional':
            return OptV(self, ty, z3.BoolVal(False), None)
        if k == 'pair':
            return PairV(self, ty, self.zero(ty.a), self.zero(ty.b))
        if k == 'opaque':
            return self.fresh_term(self.T.sort(ty), 'opq')
        raise Unsupported('zero of %r' % ty)

    def default_struct(self, ty):
        """value-initialised aggregate / defaulted constructor: in-class initialisers apply"""
        fs = {}
        for f, t, n in self.T.fields(ty.name):
            if t.k == 'ref':
                continue
            init = self.field_init(n)
            if init is not None:
                fs[f] = self.conv_init(init, t, n.get('tu'))
            else:
                fs[f] = self.zero(t)
        return StructV(self, ty, None, fs)

    def field_init(self, n):
        if n is None:
            return None
        for c in n.get('inner', []):
            if c.get('kind', '').endswith(('Expr', 'Literal', 'Operator', 'Cleanups')) and c.get('kind') != 'ConstantExpr':
                return c
        return None

    def conv_init(self, node, ty, tu):
        tu0 = self.frames[-1].tu if self.frames else None
        fr = Frame(self.tu_of(node, tu), None, None)
        self.frames.append(fr)
        try:
            v = self.rv(self.eval(node))
        finally:
            self.frames.pop()
        return self.coerce(v, ty)

    def tu_of(self, node, tu):
        return tu or (self.frames[-1].tu if self.frames else None)

    def coerce(self, v, ty):
        if isinstance(v, z3.ExprRef) and ty.k in ('int', 'bool') and (z3.is_bv(v) or z3.is_bool(v)):
            return self.resize(v, ty, True) if v.sort() != self.T.sort(ty) else v
        if isinstance(v, VecV) and ty.k == 'array' and not isinstance(v, ArrV):
            return ArrV(self, v.ety, ty.name, v.conc, v.arr)
        return v

    def strlit(self, s):
        n = 'str!' + s
        c = z3.Const(n, self.T.sort(STR))
        if not hasattr(self, 'strs'):
            self.strs = {}
        self.strs[n] = c
        return c


_hq = {}


def has_quant(t):
    i = t.get_id()
    if i in _hq and _hq[i][0].eq(t):
        return _hq[i][1]
    r = False
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            if not x.is_lambda():
                r = True
                break
            r = True
            break
        st.extend(x.children())
    _hq[i] = (t, r)
    return r
