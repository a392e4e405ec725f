"""Interpreter of statements, expressions and calls (extends Engine)."""
import z3
from .cxxtypes import *
from .values import *
from .engine import *
from .extract import body_of, FUNCS
from . import stl


def T_ite(c, a, b):
    return z3.If(c, a, b)


def unwrap(e):
    while e.get('kind') in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ParenExpr') and e.get('inner'):
        e = e['inner'][0]
    return e


class Interp(Engine):
    # =============================================================== statements
    def exec(self, n):
        k = n.get('kind')
        if 'line' in n:
            self.curline = n['line']
        m = getattr(self, 's_' + str(k), None)
        if m:
            return m(n)
        # expression statement
        self.eval(n)

    def s_None(self, n):
        pass

    def s_CompoundStmt(self, n):
        for c in n.get('inner', []):
            self.exec(c)

    def s_NullStmt(self, n):
        pass

    def s_AttributedStmt(self, n):
        for c in n.get('inner', []):
            if not c.get('kind', '').endswith('Attr'):
                self.exec(c)

    def s_DeclStmt(self, n):
        for c in n.get('inner', []):
            k = c.get('kind')
            if k == 'VarDecl':
                self.declare(c)
            elif k == 'DecompositionDecl':
                self.decompose(c)
            elif k in ('TypeAliasDecl', 'TypedefDecl', 'UsingDecl', 'StaticAssertDecl', 'CXXRecordDecl', 'EnumDecl', 'UsingDirectiveDecl',
                       'NamespaceAliasDecl'):
                if k == 'CXXRecordDecl':
                    self.prog._walk(self.frames[-1].tu, c, ['local'], None)
                if k in ('TypeAliasDecl', 'TypedefDecl'):
                    self.prog.aliases.setdefault(c['name'], c['type'].get('desugaredQualType', c['type']['qualType']))
            else:
                raise Unsupported('decl ' + str(k))

    def bind(self, n, ref):
        self.frames[-1].vars[n['id']] = ref
        if n.get('name'):
            self.frames[-1].names[n['name']] = ref

    def new_cell(self, v, ty):
        self.S.ctr += 1
        c = Cell(self, self.S.ctr, ty)
        self.S.store[c.id] = v
        return c

    def init_of(self, n):
        for c in n.get('inner', []):
            if not c.get('kind', '').endswith(('Attr', 'Comment')) and not c.get('kind', '').endswith('Decl'):
                return c
        return None

    def declare(self, n):
        ty = self.T.parse(n['type'])
        init = self.init_of(n) if n.get('init') else None
        if ty.k == 'ref':
            x = self.eval(init)
            if not isinstance(x, Ref):
                x = self.new_cell(x, ty.a)
            self.bind(n, x)
            return
        if init is None:
            v = self.uninit(ty)
        else:
            v = self.rv(self.eval(init))
            v = self.coerce(v, ty)
        if ty.k in ('iter', 'lambda', 'opaque') or not hasattr(v, 'ty') or True:
            pass
        self.bind(n, self.new_cell(v, ty))

    def uninit(self, ty):
        if ty.k in ('int', 'bool', 'ptr', 'handle', 'float'):
            return self.fresh_term(self.T.sort(ty), 'uninit')
        if ty.k == 'struct' and ty.name in self.vk.structs:
            return StructV(self, ty, self.fresh_term(self.T.sort(ty), 'uninit'))
        return self.zero(ty)

    def decompose(self, n):
        init = self.init_of(n) if n.get('init') else None
        kids = n.get('inner', [])
        binds = [c for c in kids if c.get('kind') == 'BindingDecl']
        if init is None:
            init = [c for c in kids if c.get('kind') != 'BindingDecl'][0]
        x = self.eval(init)
        ty = self.T.parse(n['type'])
        if not isinstance(x, Ref):
            x = self.new_cell(x, ty.noref())
        elif ty.k != 'ref':
            v = x.get()
            x = self.new_cell(v, x.ty.noref())
        v = x.get()
        for i, b in enumerate(binds):
            if isinstance(v, PairV):
                f = ('first', 'second')[i]
                e = v.first if i == 0 else v.second
                if isinstance(e, Ref):
                    self.bind(b, e)
                    continue
                if isinstance(e, (IterV, MapIter)) or isinstance(e, bool):
                    self.bind(b, self.new_cell(e, Ty('iter', name='it')))
                    continue
                self.bind(b, x.field(self, f))
            elif isinstance(v, StructV):
                f = self.T.fields(v.ty.name)[i][0]
                self.bind(b, x.field(self, f))
            else:
                raise Unsupported('decomposition of %r' % type(v))

    def s_ReturnStmt(self, n):
        v = None
        if n.get('inner'):
            v = self.eval(n['inner'][0])
            fr = self.frames[-1]
            if not (fr.ret_ty is not None and fr.ret_ty.k == 'ref'):
                v = self.rv(v)
                if v is not None and fr.ret_ty is not None:
                    v = self.coerce(v, fr.ret_ty)
        raise Return_(v)

    def s_BreakStmt(self, n):
        raise Break_()

    def s_ContinueStmt(self, n):
        raise Continue_()

    def s_IfStmt(self, n):
        kids = list(n.get('inner', []))
        if n.get('hasInit'):
            self.exec(kids.pop(0))
        if n.get('hasVar'):
            self.exec(kids.pop(0))
        cond = kids[0]
        if 'constexpr' in str(n.get('constexpr', '')):
            pass
        taken = self.branch(self.cond(cond))
        # loops are numbered by their position, whatever branch is taken
        fr = self.frames[-1]
        base = fr.loopno
        if taken:
            self.exec(kids[1])
        elif len(kids) > 2:
            fr.loopno = base + self.count_loops(kids[1])
            self.exec(kids[2])
        fr.loopno = base + sum(self.count_loops(k) for k in kids[1:])

    def cond(self, n):
        return self.truth(self.eval(n))

    def s_SwitchStmt(self, n):
        kids = list(n.get('inner', []))
        if n.get('hasInit'):
            self.exec(kids.pop(0))
        if n.get('hasVar'):
            self.exec(kids.pop(0))
        val = self.rv(self.eval(kids[0]))
        body = kids[1]
        stmts = []       # flat list of (labels, stmt)

        def flat(s, labels):
            while s.get('kind') in ('CaseStmt', 'DefaultStmt'):
                inner = s['inner']
                if s['kind'] == 'CaseStmt':
                    labels = labels + [inner[0]]
                    s = inner[1] if len(inner) > 1 else {'kind': 'NullStmt'}
                else:
                    labels = labels + ['default']
                    s = inner[0]
            stmts.append((labels, s))
        for s in body.get('inner', []):
            flat(s, [])
        # default applies only if no label matches
        groups = []
        for i, (labels, s) in enumerate(stmts):
            for l in labels:
                if l != 'default':
                    cv = self.rv(self.eval(l))
                    if cv.size() != val.size():
                        cv = self.resize(cv, INT(val.size(), True), True)
                    groups.append((i, val == cv))
        order = {}
        for i, c in groups:
            order.setdefault(i, []).append(c)
        start = None
        for i in sorted(order):
            if self.branch(z3.Or(order[i]) if len(order[i]) > 1 else order[i][0]):
                start = i
                break
        if start is None:
            for i, (labels, s) in enumerate(stmts):
                if 'default' in labels:
                    start = i
        if start is None:
            return
        try:
            for labels, s in stmts[start:]:
                self.exec(s)
        except Break_:
            pass

    def s_CXXTryStmt(self, n):
        kids = n['inner']
        try:
            self.exec(kids[0])
        except CppThrow as e:
            # first handler is assumed to match
            h = kids[1]
            hk = [c for c in h.get('inner', [])]
            for c in hk:
                if c.get('kind') == 'VarDecl':
                    self.bind(c, self.new_cell(OpaqueV('exception'), Ty('opaque', name='exception')))
            self.exec(hk[-1])

    # ------------------------------------------------------------------ loops
    def loop_spec(self):
        fr = self.frames[-1]
        idx = fr.loopno
        fr.loopno += 1
        if fr.contract is not None and self.use_invariants:
            return fr.contract.loops.get(idx), idx
        sp = getattr(fr, 'inl_loops', None)
        if sp and self.use_invariants:
            return sp.get(idx), idx
        return None, idx

    def s_WhileStmt(self, n):
        kids = list(n['inner'])
        condvar = None
        if n.get('hasVar'):
            condvar = kids.pop(0)

        def cond():
            if condvar is not None:
                self.exec(condvar)
            return self.cond(kids[0])
        self.do_loop(n, cond, kids[1], None)

    def s_DoStmt(self, n):
        kids = n['inner']
        first = [True]

        def cond():
            if first[0]:
                first[0] = False
                return z3.BoolVal(True)
            return self.cond(kids[1])
        spec, idx = self.loop_spec()
        self.unrolled(cond, kids[0], None, idx)

    def s_ForStmt(self, n):
        kids = n['inner']
        # init, condvar, cond, inc, body
        init, cvar, cond, inc, body = (kids + [{}] * 5)[:5]
        lv = []
        fr = self.frames[-1]
        if init.get('kind'):
            self.exec(init)
            if init.get('kind') == 'DeclStmt':
                lv = [fr.vars[d['id']] for d in init.get('inner', []) if d.get('id') in fr.vars]
        c = (lambda: self.cond(cond)) if cond.get('kind') else (lambda: z3.BoolVal(True))
        i = (lambda: self.eval(inc)) if inc.get('kind') else None
        fr.loopvars = fr.loopvars + [lv]
        try:
            self.do_loop(n, c, body, i)
        finally:
            fr.loopvars = fr.loopvars[:-1]

    def body_once(self, body):
        fr = self.frames[-1]
        save = fr.loopno
        try:
            self.exec(body)
        except Continue_:
            pass

    def count_loops(self, n):
        c = 0
        if n.get('kind') == 'LambdaExpr':
            return 0
        if n.get('kind') in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
            c += 1
        for x in n.get('inner', []):
            c += self.count_loops(x)
        return c

    def do_loop(self, n, cond, body, inc, binder=None, ghost=None):
        spec, idx = self.loop_spec()
        if spec is None:
            return self.unrolled(cond, body, inc, idx)
        fr = self.frames[-1]
        inner_no = fr.loopno
        nin = self.count_loops(body)
        ctx = LoopCtx(self, fr, ghost)
        ctx.snapshot()
        # --- establish
        for nm, g in spec.inv(ctx):
            self.oblige('%s: loop %d invariant "%s" holds on entry' % (self.fname(fr), idx, nm), g, 'inv', n.get('line'))
        # --- havoc
        wr = self.discover(spec, cond, body, inc, ghost, fr, inner_no)
        trace0 = list(self.S.trace)
        self.havoc(wr, fr)
        if ghost is not None:
            ghost.havoc(self)
        seg = None
        if spec.iter is not None or spec.allow_events:
            # what the completed iterations emitted: each of them satisfied `iter`
            seg = Segment(None, None, (spec.label(ctx) if callable(spec.label) else spec.label) or 'loop%d' % idx)
            self.S.trace.append(seg)
        for nm, g in spec.inv(ctx):
            self.assume_tagged(g, nm)
        c = cond()
        if ghost is None:
            it = z3.BitVec(self.fresh_name('iter', BV64), 64)
        if self.branch(c):
            fr.loopno = inner_no
            t0 = len(self.S.trace)
            ctx.begin_body()
            broke = False
            w0, self.writes = self.writes, set()
            cells = set(self.S.store)
            try:
                self.body_once(body)
            except Break_:
                broke = True
            except Return_:
                self.writes = self.writes if w0 is None else w0 | self.writes
                if spec.emits is not None:
                    raise Unsupported('return out of a loop that emits')
                raise
            except BaseException:
                self.writes = self.writes if w0 is None else w0 | self.writes
                raise
            fr.loopno = inner_no + nin
            if broke:
                self.writes = self.writes if w0 is None else w0 | self.writes
                if spec.emits is not None:
                    raise Unsupported('break out of a loop that emits')
                return
            emitted = self.S.trace[t0:]
            if inc:
                inc()
            self.check_writes(wr, cells, w0)
            if spec.emits is not None:
                want = spec.emits(ctx.at_begin())
                self.match_events('%s: loop %d emits' % (self.fname(fr), idx), emitted, want)
            elif spec.iter is not None:
                for nm, g in spec.iter(ctx.at_begin(), emitted):
                    self.oblige('%s: each round of loop %d: %s' % (self.fname(fr), idx, nm), g, 'trace', n.get('line'))
            elif len(emitted) and not spec.allow_events:
                raise Unsupported('loop body emits events but invariant does not say which')
            for nm, g in spec.inv(ctx):
                self.oblige('%s: loop %d invariant "%s" preserved' % (self.fname(fr), idx, nm), g, 'inv', n.get('line'))
            raise PathEnd()
        fr.loopno = inner_no + nin
        if spec.emits is not None:
            self.S.trace.append(Segment(spec.count(ctx), lambda k, ctx=ctx: spec.emits(ctx.at_index(k))))

    def match_events(self, name, got, want):
        if len(got) != len(want) or any(g.name != w.name for g, w in zip(got, want)):
            self.oblige(name + ' the specified commands', z3.BoolVal(False), 'trace', info={'got': [g.name for g in got], 'want': [w.name for w in want]})
            return
        for i, (g, w) in enumerate(zip(got, want)):
            for k, f in w.args.items():
                gv = g.args.get(k)
                goal = f(gv) if callable(f) else self.eq_val(gv, f)
                self.oblige('%s %s.%s' % (name, g.name, k), goal, 'trace')

    def discover(self, spec, cond, body, inc, ghost, fr, inner_no):
        """roots written by the loop (to a fixpoint)"""
        key = (self.run.key + tuple(self.run.taken), fr.fn.get('id') if fr.fn else None, inner_no, self.S.ctr, 'disc')
        if key in self.memo:
            return self.memo[key]
        hint = ('hint', fr.fn.get('id') if fr.fn else None, inner_no, tuple(sorted(self.S.store)))
        if self.use_hints and hint in self.memo:
            # found on another path with the same cells; do_loop checks that the body writes no more than this
            known = self.memo[hint]
            if self.writes is not None:
                self.writes |= known
            return known
        known = set()
        for _ in range(5):
            found = set()

            def once():
                sv = self.writes
                self.writes = set()
                try:
                    lc = LoopCtx(self, fr, ghost).with_pre(spec)
                    self.havoc(known, fr)
                    if ghost is not None:
                        ghost.havoc(self)
                    for nm, g in spec.inv(lc):
                        pass
                    c = cond()
                    w0 = set()
                    if self.branch(c):
                        fr.loopno = inner_no
                        try:
                            self.body_once(body)
                            if inc:
                                inc()
                        finally:
                            found.update(self.writes)
                    else:
                        found.update(self.writes)
                finally:
                    self.writes = sv
            so, seen, vs = list(self.obls), set(self.obl_seen), dict(fr.vars)
            st = dict(self.S.store)
            try:
                self.explore(once)
            finally:
                self.obls, self.obl_seen = so, seen
            f2 = set()
            for r in found:
                if r[0] == 'cell' and r[1] not in st:
                    continue
                f2.add(r)
            if f2 <= known:
                break
            known |= f2
        self.memo[key] = known
        self.memo[hint] = known
        if self.writes is not None:
            self.writes |= known
        return known

    def check_writes(self, wr, cells, before):
        """the body of a loop writes nothing but what was forgotten before it"""
        new, self.writes = self.writes, before
        if before is not None:
            before |= new
        for r in new:
            if r not in wr and not (r[0] == 'cell' and r[1] not in cells) and not (r[0] == 'heap' and r[:3] + (None,) in wr):
                raise StaleHint()

    def havoc(self, roots, fr):
        for r in sorted(roots, key=str):
            if r[0] == 'cell':
                old = self.S.store.get(r[1])
                self.S.store[r[1]] = self.havoc_like(old, r)
            elif r[0] == 'heap':
                a = self.S.heap.get((r[1], r[2]))
                if a is None and (r[1], r[2]) in self.heap_sorts:
                    a = self.heap_array(r[1], r[2], self.heap_sorts[(r[1], r[2])])
                if a is not None and r[3] is not None:
                    if not any(x[:3] == r[:3] and x[3] is None for x in roots):
                        self.S.heap[(r[1], r[2])] = z3.Store(a, z3.BitVec(r[3], 64), self.fresh_term(a.sort().range(), 'Hv_' + r[2]))
                elif a is not None:
                    self.S.heap[(r[1], r[2])] = self.fresh_term(a.sort(), 'H_' + r[2])
            if self.writes is not None:
                self.writes.add(r)

    def havoc_like(self, v, r):
        if isinstance(v, bool):
            return self.fresh_term(z3.BoolSort(), 'hv')
        if isinstance(v, z3.ExprRef):
            return self.fresh_term(v.sort(), 'hv')
        if isinstance(v, StructV):
            return self.fresh(v.ty, 'hv')
        if isinstance(v, ArrV):
            return self.fresh(Ty('array', v.ety, name=v.n), 'hv')
        if isinstance(v, VecV):
            return self.fresh(VEC(v.ety), 'hv')
        if isinstance(v, (MapV, OptV, PairV)):
            return self.fresh(v.ty, 'hv')
        if isinstance(v, IterV):
            return IterV(v.vec, self.fresh_term(BV64, 'hvit'), v.rev)
        if isinstance(v, MapIter):
            return MapIter(v.map, self.fresh_term(v.key.sort(), 'hvk'), self.fresh_term(z3.BoolSort(), 'hvend'))
        if isinstance(v, (PtrRef, PtrElem)) or v is None:
            raise Unsupported('havoc of pointer-valued local')
        raise Unsupported('havoc of %r' % type(v))

    def unrolled(self, cond, body, inc, idx):
        fr = self.frames[-1]
        inner = fr.loopno
        nin = self.count_loops(body)
        symbolic = False
        i = 0
        try:
            while True:
                c = simp(self.truth(cond()))
                if not (z3.is_true(c) or z3.is_false(c)):
                    symbolic = True
                if symbolic and i >= self.unroll:
                    self.bounded = True
                    self.bounded_loops.add('%s loop %d' % (self.fname(fr), idx))
                    # only the executions with at most `unroll` iterations are explored
                    self.assume(z3.Not(c), True)
                    if not self.feasible(z3.BoolVal(True)):
                        raise PathEnd()
                    break
                if i > 4096:
                    raise Unsupported('loop does not terminate concretely')
                if not self.branch(c):
                    break
                fr.loopno = inner
                self.body_once(body)
                if inc:
                    inc()
                i += 1
        except Break_:
            pass
        fr.loopno = inner + nin

    def s_CXXForRangeStmt(self, n):
        kids = n['inner']
        # [init], range decl, begin decl, end decl, cond, inc, loopvar decl, body
        body = kids[-1]
        lv = kids[-2]['inner'][0]
        rng = None
        for c in kids:
            if c.get('kind') == 'DeclStmt' and c['inner'][0].get('name', '').startswith('__range'):
                rng = c['inner'][0]
        if kids[0].get('kind') and kids[0] is not rng and kids[0].get('kind') == 'DeclStmt' and not kids[0]['inner'][0].get('name', '').startswith('__range'):
            self.exec(kids[0])
        self.declare(rng)
        r = self.frames[-1].vars[rng['id']]
        v = r.get()
        lty = self.T.parse(lv['type'])
        if isinstance(v, PairV) and False:
            pass
        if isinstance(v, VecV):
            g = SeqGhost(self, r)

            def cond():
                return z3.ULT(g.i(), r.get().len)

            def inc():
                g.step()
            body2 = {'kind': 'RangeBody', 'inner': [body], 'elem': lambda: ElemRef(self, r, g.i()), 'lv': lv, 'lty': lty}
            self.do_loop(n, cond, body2, inc, ghost=g)
            return
        if isinstance(v, MapV):
            g = MapGhost(self, r)
            spec = self.peek_spec()
            if spec is None:
                raise_unr = True
            def cond():
                return g.cond()

            def inc():
                g.step()

            def elem():
                k = g.cur()
                if v.isset:
                    return Const(self, r.get().keyval(k), r.ty.noref().a)
                return MapPairRef(self, r, k)
            body2 = {'kind': 'RangeBody', 'inner': [body], 'elem': elem, 'lv': lv, 'lty': lty}
            self.do_loop(n, cond, body2, inc, ghost=g)
            return
        raise Unsupported('range-for over %r' % type(v))

    def peek_spec(self):
        fr = self.frames[-1]
        if fr.contract is not None and self.use_invariants:
            return fr.contract.loops.get(fr.loopno)
        return None

    def s_RangeBody(self, n):
        e = n['elem']()
        if n['lv'].get('kind') == 'DecompositionDecl':
            lv = n['lv']
            binds = [c for c in lv.get('inner', []) if c.get('kind') == 'BindingDecl']
            for i, b in enumerate(binds):
                t = e.ty.noref()
                f = ('first', 'second')[i] if t.k == 'pair' else self.T.fields(t.name)[i][0]
                self.bind(b, e.field(self, f))
        elif n['lty'].k == 'ref':
            self.bind(n['lv'], e)
        else:
            self.bind(n['lv'], self.new_cell(e.get(), n['lty']))
        for c in n['inner']:
            self.exec(c)

    # =============================================================== expressions
    def eval(self, n):
        k = n['kind']
        if 'line' in n:
            self.curline = n['line']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression ' + k)
        return m(n)

    def e_IntegerLiteral(self, n):
        t = self.T.parse(n['type'])
        return bv(int(n['value']), t.w)

    def e_CharacterLiteral(self, n):
        return bv(int(n['value']), self.T.parse(n['type']).w if self.T.parse(n['type']).k == 'int' else 32)

    def e_CXXBoolLiteralExpr(self, n):
        v = n['value']
        return z3.BoolVal(v is True or v == 'true')

    def e_FloatingLiteral(self, n):
        return z3.Const('flt!' + str(n['value']), self.T.sort(self.T.parse(n['type'])))

    def e_StringLiteral(self, n):
        return self.strlit(n.get('value', ''))

    def e_PredefinedExpr(self, n):
        return self.strlit('__func__')

    def e_CXXNullPtrLiteralExpr(self, n):
        return bv(0)

    def e_GNUNullExpr(self, n):
        return bv(0)

    def e_CXXThisExpr(self, n):
        this = None
        for fr in reversed(self.frames):
            if fr.this is not None:
                this = fr.this
                break
            if not getattr(fr, 'is_lambda', False):
                break
        this = self.frames[-1].this if self.frames[-1].this is not None else this
        if this is None:
            raise Unsupported('this outside of method')
        return self.mkptr(this)

    def mkptr(self, ref):
        if isinstance(ref, HeapObj):
            return ref.addr
        if isinstance(ref, HeapCell):
            return ref.addr
        if isinstance(ref, ElemRef):
            return PtrElem(ref.vec, ref.idx)
        return PtrRef(ref)

    def e_ParenExpr(self, n):
        return self.eval(n['inner'][0])

    e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_SubstNonTypeTemplateParmExpr = e_ConstantExpr = e_FullExpr = e_ParenExpr

    def e_MaterializeTemporaryExpr(self, n):
        v = self.eval(n['inner'][0])
        if isinstance(v, Ref):
            return v
        return self.new_cell(v, self.T.parse(n['type']).noref())

    def e_CXXStdInitializerListExpr(self, n):
        v = self.rv(self.eval(n['inner'][0]))
        return v

    def lookup(self, did, name):
        for fr in reversed(self.frames):
            if did in fr.vars:
                return fr.vars[did]
            if not getattr(fr, 'is_lambda', False):
                break
        fr = self.frames[-1]
        if getattr(fr, 'is_lambda', False) and name in fr.names:
            return fr.names[name]
        return None

    def e_DeclRefExpr(self, n):
        rd = n.get('referencedDecl', {})
        k, name, did = rd.get('kind'), rd.get('name', ''), rd.get('id')
        if k == 'EnumConstantDecl':
            return self.enum_const(did, name, n)
        if k in FUNCS:
            m = self.mangled_of(did)
            return FnV(m, name)
        r = self.lookup(did, name)
        if r is not None:
            return r
        if k in ('VarDecl', 'VarTemplateSpecializationDecl'):
            tu = self.frames[-1].tu
            d = self.prog.decls.get((tu, did))
            if d is not None and (d.get('init') or d.get('inner')):
                key = (tu, did)
                ty = self.T.parse(d['type'])
                if key not in self.global_cells:
                    init = self.init_of(d)
                    fr = Frame(tu, None, None)
                    self.frames.append(fr)
                    try:
                        v = self.rv(self.eval(init))
                        v = self.coerce(v, ty)
                    finally:
                        self.frames.pop()
                    return Const(self, v, ty.noref())
            if name == 'npos':
                return Const(self, bv((1 << 64) - 1), U64)
            return Const(self, self.from_term(z3.Const('global!' + name, self.T.sort(self.T.parse(n['type']).noref())), self.T.parse(n['type']).noref()), self.T.parse(n['type']).noref())
        raise Unsupported('reference to %s %s' % (k, name))

    def enum_const(self, did, name, n):
        t = self.T.parse(n['type'])
        w = t.w if t.k == 'int' else 32
        tu = self.frames[-1].tu
        if (tu, did) in self.prog.enumconst:
            return bv(self.prog.enumconst[(tu, did)], w)
        if name in self.vk.consts:
            return bv(self.vk.consts[name], w)
        raise Unsupported('enum constant ' + name)

    def mangled_of(self, did):
        tu = self.frames[-1].tu
        d = self.prog.decls.get((tu, did))
        if d is not None:
            return d.get('mangledName')
        return None

    def e_MemberExpr(self, n):
        base = n['inner'][0]
        b = self.eval(base)
        name = n.get('name', '')
        bt = self.T.parse(base['type'])
        if n.get('isArrow'):
            ref = self.deref(b, bt.noref().a if bt.noref().k == 'ptr' else Ty('opaque', name='?'))
        else:
            if not isinstance(b, Ref):
                if isinstance(b, OpaqueV):
                    raise Unsupported('member of opaque')
                ref = Const(self, b, bt.noref())
            else:
                ref = b
        d = self.prog.decls.get((self.frames[-1].tu, n.get('referencedMemberDecl')))
        if n['type']['qualType'] == '<bound member function type>':
            return MethPtr(ref, name)
        if d is not None and d.get('kind') in ('VarDecl',):
            return self.e_DeclRefExpr({'referencedDecl': {'kind': 'VarDecl', 'id': d['id'], 'name': name}, 'type': n['type']})
        if d is not None and d.get('kind') == 'EnumConstantDecl':
            return self.enum_const(d['id'], name, n)
        return self.member(ref, name)

    def member(self, ref, name):
        if name == '' or name is None:
            # anonymous union/struct member: stay on the same object
            raise Unsupported('anonymous member')
        if isinstance(ref, Const) and not isinstance(ref.v, (StructV, PairV)):
            raise Unsupported('member %s of %r' % (name, type(ref.v)))
        f = ref.field(self, name)
        if f.ty is not None and f.ty.k == 'ref':
            v = f.get() if not (isinstance(ref, (Cell, FieldRef, ElemRef)) and False) else None
            if isinstance(v, Ref):
                return v
            return self.deref(v, f.ty.a)
        return f

    def e_ImplicitCastExpr(self, n):
        ck = n.get('castKind')
        sub = n['inner'][0]
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'ConstructorConversion', 'UserDefinedConversion', 'NoOp',
                  'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'BitCast', 'AtomicToNonAtomic', 'LValueBitCast', 'Dynamic'):
            v = self.eval(sub)
            if ck in ('DerivedToBase', 'UncheckedDerivedToBase') and isinstance(v, HeapObj):
                return v
            return v
        if ck == 'LValueToRValue':
            return self.rv(self.eval(sub))
        if ck in ('IntegralCast', 'IntegralToBoolean', 'BooleanToSignedIntegral'):
            v = self.rv(self.eval(sub))
            ft, tt = self.T.parse(sub['type']).noref(), self.T.parse(n['type']).noref()
            return self.resize(v, tt, ft.k == 'int' and ft.s)
        if ck == 'PointerToBoolean' or ck == 'MemberPointerToBoolean':
            return self.truth(self.eval(sub))
        if ck == 'NullToPointer':
            return bv(0)
        if ck == 'ArrayToPointerDecay':
            x = self.eval(sub)
            if isinstance(x, z3.ExprRef):
                return x
            if not isinstance(x, Ref):
                x = self.new_cell(x, self.T.parse(sub['type']).noref())
            if isinstance(x.get(), z3.ExprRef):
                return x.get()
            return PtrElem(x, bv(0))
        if ck == 'ToVoid':
            self.eval(sub)
            return None
        if ck in ('IntegralToFloating', 'FloatingCast', 'FloatingToIntegral', 'FloatingToBoolean'):
            v = self.rv(self.eval(sub))
            tt = self.T.parse(n['type']).noref()
            f = z3.Function('cast_%s_%s' % (str(v.sort()).replace(' ', ''), repr(tt)), v.sort(), self.T.sort(tt))
            return f(v)
        if ck in ('PointerToIntegral', 'IntegralToPointer'):
            v = self.rv(self.eval(sub))
            if isinstance(v, (PtrRef, PtrElem)):
                v = self.to_term(v, PTR(VOID))
            return self.resize(v, self.T.parse(n['type']).noref() if self.T.parse(n['type']).k == 'int' else U64, False)
        raise Unsupported('cast ' + str(ck))

    e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = e_CXXReinterpretCastExpr = e_ImplicitCastExpr
    e_CXXDynamicCastExpr = e_ImplicitCastExpr
    e_BuiltinBitCastExpr = e_ImplicitCastExpr

    def e_UnaryOperator(self, n):
        op = n['opcode']
        sub = n['inner'][0]
        if op == '!':
            return simp(z3.Not(self.truth(self.eval(sub))))
        if op == '&':
            x = self.eval(sub)
            if isinstance(x, FnV):
                return x
            if isinstance(x, Const) and isinstance(x.v, (z3.ExprRef,)) is False:
                x = self.new_cell(x.v, x.ty)
            return self.mkptr(x)
        if op == '*':
            p = self.rv(self.eval(sub))
            pt = self.T.parse(sub['type']).noref()
            return self.deref(p, pt.a if pt.k == 'ptr' else self.T.parse(n['type']))
        if op == '-':
            v = self.rv(self.eval(sub))
            if z3.is_bv(v):
                return simp(-v)
            return z3.Function('fneg', v.sort(), v.sort())(v)
        if op == '+':
            return self.rv(self.eval(sub))
        if op == '~':
            return simp(~self.rv(self.eval(sub)))
        if op in ('++', '--'):
            r = self.eval(sub)
            v = r.get()
            d = 1 if op == '++' else -1
            if isinstance(v, PtrElem):
                nv = PtrElem(v.vec, simp(v.idx + d))
            else:
                nv = simp(v + d)
            r.set(nv)
            return v if n.get('isPostfix') else r
        if op == '__extension__':
            return self.eval(sub)
        raise Unsupported('unary ' + op)

    def e_BinaryOperator(self, n):
        op = n['opcode']
        l, r = n['inner']
        if op == '=':
            lv = self.eval(l)
            v = self.rv(self.eval(r))
            lt = self.T.parse(l['type']).noref()
            lv.set(self.coerce(v, lt))
            return lv
        if op == ',':
            self.eval(l)
            return self.eval(r)
        if op in ('&&', '||'):
            a = simp(self.truth(self.eval(l)))
            if op == '&&':
                if z3.is_false(a):
                    return a
                if z3.is_true(a):
                    return self.truth(self.eval(r))

                def f():
                    if self.branch(a):
                        return self.truth(self.eval(r))
                    return z3.BoolVal(False)
                return self.merged(f)
            if z3.is_true(a):
                return a
            if z3.is_false(a):
                return self.truth(self.eval(r))

            def g():
                if self.branch(a):
                    return z3.BoolVal(True)
                return self.truth(self.eval(r))
            return self.merged(g)
        a, b = self.rv(self.eval(l)), self.rv(self.eval(r))
        return self.binop(op, a, b, self.T.parse(l['type']).noref(), self.T.parse(n['type']).noref())

    def binop(self, op, a, b, lt, nt):
        if isinstance(a, Val) or isinstance(b, Val):
            if op in ('==', '!='):
                e = self.eq_val(a, b)
                return e if op == '==' else simp(z3.Not(e))
            if isinstance(a, PtrElem) and isinstance(b, z3.ExprRef) and op in ('+', '-'):
                d = b if b.size() == 64 else z3.SignExt(64 - b.size(), b)
                return PtrElem(a.vec, simp(a.idx + d if op == '+' else a.idx - d))
            raise Unsupported('binop %s on %r' % (op, type(a)))
        if isinstance(a, bool):
            a = z3.BoolVal(a)
        if isinstance(b, bool):
            b = z3.BoolVal(b)
        if z3.is_bool(a) and z3.is_bool(b):
            if op in ('==',):
                return simp(a == b)
            if op in ('!=', '^'):
                return simp(a != b)
            if op == '&':
                return simp(z3.And(a, b))
            if op == '|':
                return simp(z3.Or(a, b))
        if not z3.is_bv(a):
            if op in ('==', '!='):
                return simp(a == b) if op == '==' else simp(a != b)
            if op in ('<', '>', '<=', '>='):
                return z3.Function('f' + op, a.sort(), b.sort(), z3.BoolSort())(a, b)
            return z3.Function('f' + op, a.sort(), b.sort(), a.sort())(a, b)
        if op in ('<<', '>>'):
            if b.size() != a.size():
                if b.size() < a.size():
                    b = z3.ZeroExt(a.size() - b.size(), b)
                else:
                    b = z3.Extract(a.size() - 1, 0, b)
            if self.safety:
                self.oblige('shift amount is smaller than the operand width', z3.ULT(b, bv(a.size(), a.size())), 'safety')
            if op == '<<':
                return simp(a << b)
            return simp((a >> b) if (lt.k == 'int' and lt.s) else z3.LShR(a, b))
        if b.size() != a.size():
            w = max(a.size(), b.size())
            a = self.resize(a, INT(w, False), lt.k == 'int' and lt.s)
            b = self.resize(b, INT(w, False), False)
        sg = lt.k == 'int' and lt.s
        if op == '==':
            return simp(a == b)
        if op == '!=':
            return simp(a != b)
        if op == '<':
            return simp(a < b if sg else z3.ULT(a, b))
        if op == '>':
            return simp(a > b if sg else z3.UGT(a, b))
        if op == '<=':
            return simp(a <= b if sg else z3.ULE(a, b))
        if op == '>=':
            return simp(a >= b if sg else z3.UGE(a, b))
        if op == '+':
            return simp(a + b)
        if op == '-':
            return simp(a - b)
        if op == '*':
            return simp(a * b)
        if op == '/':
            if self.safety:
                self.oblige('division by zero', b != 0, 'safety')
            return simp(a / b if sg else z3.UDiv(a, b))
        if op == '%':
            if self.safety:
                self.oblige('division by zero', b != 0, 'safety')
            return simp(z3.SRem(a, b) if sg else z3.URem(a, b))
        if op == '&':
            return simp(a & b)
        if op == '|':
            return simp(a | b)
        if op == '^':
            return simp(a ^ b)
        raise Unsupported('binop ' + op)

    def e_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        l, r = n['inner']
        lv = self.eval(l)
        b = self.rv(self.eval(r))
        lt = self.T.parse(l['type']).noref()
        a = lv.get()
        if lt.k == 'int' and z3.is_bv(a):
            ct = self.T.parse(n['computeLHSType']) if n.get('computeLHSType') else lt
            if ct.k == 'int':
                a2 = self.resize(a, ct, lt.s)
                v = self.binop(op, a2, b, ct, ct)
                v = self.resize(v, lt, ct.s)
            else:
                v = self.binop(op, a, b, lt, lt)
        else:
            v = self.binop(op, a, b, lt, lt)
        lv.set(v)
        return lv

    def e_ConditionalOperator(self, n):
        c, a, b = n['inner']
        cv = simp(self.cond(c))
        if z3.is_true(cv):
            return self.eval(a)
        if z3.is_false(cv):
            return self.eval(b)
        if n.get('valueCategory') == 'lvalue':
            return self.eval(a) if self.branch(cv) else self.eval(b)

        def f():
            return self.rv(self.eval(a)) if self.branch(cv) else self.rv(self.eval(b))
        return self.merged(f)

    def e_ArraySubscriptExpr(self, n):
        a = self.rv(self.eval(n['inner'][0]))
        i = self.rv(self.eval(n['inner'][1]))
        if isinstance(i, (PtrElem,)):
            a, i = i, a
        it = self.T.parse(n['inner'][1]['type']).noref()
        i64 = self.resize(i, I64, not (it.k == 'int' and not it.s))
        if isinstance(a, PtrElem):
            idx = simp(a.idx + i64)
            return self.elem(a.vec, idx)
        if isinstance(a, PtrRef) and conc_int(i64) == 0:
            return a.ref
        raise Unsupported('subscript of %r' % type(a))

    def elem(self, vec, idx):
        if self.safety:
            self.oblige('index within bounds', z3.ULT(idx, vec.get().len), 'safety')
        return ElemRef(self, vec, idx)

    def e_ImplicitValueInitExpr(self, n):
        return self.zero(self.T.parse(n['type']).noref())

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_InitListExpr(self, n):
        ty = self.T.parse(n['type']).noref()
        kids = n.get('inner', [])
        if ty.k == 'struct':
            if ty.name in self.vk.unions:
                fs = self.T.fields(ty.name)
                nm = n.get('field', {}).get('name') or fs[0][0]
                v = self.rv(self.eval(kids[0])) if kids else self.zero(self.T.field_ty(ty.name, nm))
                z = StructV(self, ty, z3.Const('zero!' + ty.name, self.T.sort(ty)))
                return z.with_(nm, v)
            fl = self.T.fields(ty.name)
            rec = self.prog.records.get(ty.name)
            if rec and rec.get('union'):
                raise Unsupported('union init')
            fs = {}
            if len(kids) == 1 and self.T.parse(kids[0]['type']).noref() == ty and fl and fl[0][1] != ty:
                return self.rv(self.eval(kids[0]))
            if rec and rec['bases'] and kids:
                raise Unsupported('aggregate with bases')
            for i, (f, t, init) in enumerate(fl):
                if i < len(kids) and not (kids[i].get('kind') == 'CXXDefaultInitExpr' and not kids[i].get('inner')):
                    x = self.eval(kids[i])
                    if t.k == 'ref':
                        fs[f] = x
                        continue
                    fs[f] = self.coerce(self.rv(x), t)
                else:
                    ini = self.field_init(init)
                    fs[f] = self.conv_init(ini, t, init.get('tu')) if ini is not None else self.zero(t)
            return StructV(self, ty, None, fs)
        if ty.k in ('array', 'vector'):
            vals = []
            if n.get('array_filler'):
                # array_filler lists [filler, explicit elements...]
                kids = n['array_filler'][1:]
            for c in kids:
                vals.append(self.coerce(self.rv(self.eval(c)), ty.a))
            if ty.k == 'array' and kids and len(kids) == 1 and isinstance(vals[0], ArrV):
                return vals[0]
            if ty.k == 'array':
                while len(vals) < ty.name:
                    vals.append(self.zero(ty.a))
                return ArrV(self, ty.a, ty.name, vals)
            return VecV(self, ty.a, vals)
        if not kids:
            return self.zero(ty)
        if len(kids) == 1:
            return self.coerce(self.rv(self.eval(kids[0])), ty)
        raise Unsupported('init list of %r' % ty)

    def e_CXXDefaultInitExpr(self, n):
        if n.get('inner'):
            return self.eval(n['inner'][0])
        raise Unsupported('default init')

    def e_UnaryExprOrTypeTraitExpr(self, n):
        at = n.get('argType')
        t = self.T.parse(at) if at else self.T.parse(n['inner'][0]['type'])
        return bv(self.sizeof(t.noref()))

    def sizeof(self, t):
        if t.k == 'int':
            return t.w // 8
        if t.k == 'bool':
            return 1
        if t.k in ('ptr', 'handle', 'function'):
            return 8
        if t.k == 'float':
            return 8 if t.name == 'double' else 4
        if t.k == 'array':
            return t.name * self.sizeof(t.a)
        if t.k == 'struct':
            o, al = 0, 1
            for f, ft, n in self.T.fields(t.name):
                s = self.sizeof(ft)
                a = self.alignof(ft)
                al = max(al, a)
                o = (o + a - 1) // a * a + s
            return (o + al - 1) // al * al
        raise Unsupported('sizeof %r' % t)

    def alignof(self, t):
        if t.k == 'array':
            return self.alignof(t.a)
        if t.k == 'struct':
            return max([self.alignof(ft) for f, ft, n in self.T.fields(t.name)] or [1])
        return self.sizeof(t)

    def e_LambdaExpr(self, n):
        kids = n.get('inner', [])
        rec = kids[0]
        fields = [c for c in rec.get('inner', []) if c.get('kind') == 'FieldDecl']
        op = [c for c in rec.get('inner', []) if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()']
        if not op:
            for c in rec.get('inner', []):
                if c.get('kind') == 'FunctionTemplateDecl':
                    op = [x for x in c.get('inner', []) if x.get('kind') == 'CXXMethodDecl']
        caps = kids[1:1 + len(fields)]
        env = {}
        envn = {}
        this = self.frames[-1].this
        for f, c in zip(fields, caps):
            ft = self.T.parse(f['type'])
            base = c
            while base.get('kind') in ('ImplicitCastExpr', 'CXXConstructExpr', 'MaterializeTemporaryExpr', 'ParenExpr', 'ExprWithCleanups', 'CallExpr') and base.get('inner'):
                base = base['inner'][-1]
            if base.get('kind') == 'CXXThisExpr':
                continue
            x = self.eval(c)
            did = base.get('referencedDecl', {}).get('id')
            nm = base.get('referencedDecl', {}).get('name')
            if ft.k != 'ref':
                x = self.new_cell(self.rv(x), ft)
            elif not isinstance(x, Ref):
                x = self.new_cell(x, ft.a)
            env[did] = x
            if nm:
                envn[nm] = x
            if f.get('name'):
                envn[f['name']] = x
        self.S.ctr += 1
        self.lam_count = getattr(self, 'lam_count', 0) + 1
        fr = self.frames[-1]
        lv = LambdaV({'op': op[-1], 'names': envn, 'ops': op}, env, this, fr.tu, self.lam_count)
        return lv

    def call_lambda(self, lam, args):
        ops = [o for o in lam.node.get('ops', [lam.node['op']]) if body_of(o) is not None]
        op = ops[0] if ops else lam.node['op']
        fr = Frame(lam.tu, op, lam.this)
        fr.is_lambda = False
        fr.vars.update(lam.env)
        fr.names.update(lam.node['names'])
        fr.is_lambda_frame = True
        return self.run_body(fr, op, args)

    # =============================================================== calls
    def fname(self, fr):
        return (fr.fn or {}).get('qn') or (fr.fn or {}).get('name') or '?'

    def bind_params(self, fr, fn, args):
        params = [c for c in fn.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        for i, p in enumerate(params):
            ty = self.T.parse(p['type'])
            if i < len(args):
                x = args[i]
            else:
                x = self.default_arg(fn, i, p, fr.tu)
            if ty.k == 'ref':
                if not isinstance(x, Ref):
                    x = self.new_cell(x, ty.a)
            else:
                v = self.rv(x)
                x = self.new_cell(self.coerce(v, ty), ty)
            fr.vars[p['id']] = x
            if p.get('name'):
                fr.names[p['name']] = x
        return params

    def default_arg(self, fn, i, p, tu):
        m = fn.get('mangledName')
        for t, d in self.prog.fdecls.get(m, []) + [(tu, fn)]:
            ps = [c for c in d.get('inner', []) if c.get('kind') == 'ParmVarDecl']
            if i < len(ps) and ps[i].get('init'):
                fr = Frame(t, None, None)
                self.frames.append(fr)
                try:
                    return self.rv(self.eval(self.init_of(ps[i])))
                finally:
                    self.frames.pop()
        raise Unsupported('missing argument %d of %s' % (i, fn.get('name')))

    def run_body(self, fr, fn, args):
        self.bind_params(fr, fn, args)
        if len(self.frames) > 60:
            raise Unsupported('recursion')
        rt = fn['type'].get('desugaredQualType') or fn['type']['qualType']
        q = fn['type']['qualType']
        fr.ret_ty = self.ret_type(q)
        body = body_of(fn)
        if body is None:
            raise Unsupported('no body for ' + str(fn.get('name')))
        self.frames.append(fr)
        try:
            if fn.get('kind') == 'CXXConstructorDecl' and fr.this is not None:
                self.exec_inits(fn, fr.this.cls if isinstance(fr.this, HeapObj) else self.prog.cls_of[fn['mangledName']], fr.this)
            self.exec(body)
            return None
        except Return_ as r:
            return r.v
        finally:
            self.frames.pop()

    def ret_type(self, q):
        # "R (params) quals"
        d = 0
        i = len(q) - 1
        # find the '(' of the parameter list: last top-level group
        depth = 0
        pos = None
        for j, ch in enumerate(q):
            if ch in '(<[':
                if ch == '(' and depth == 0 and pos is None and q[:j].strip():
                    pos = j
                    if q[j:j + 3] == '(*)':
                        pos = None
                depth += 1
            elif ch in ')>]':
                depth -= 1
        r = q[:pos].strip() if pos else q
        if '->' in q[pos or 0:]:
            r = q.rsplit('->', 1)[1].strip()
        try:
            if r == 'auto':
                return None
            return self.T.parse(r)
        except Unsupported:
            return None

    def call_args(self, nodes):
        out = []
        for a in nodes:
            if a.get('kind') == 'CXXDefaultArgExpr':
                if a.get('inner'):
                    out.append(self.eval(a['inner'][0]))
                    continue
                break
            out.append(self.eval(a))
        return out

    def e_CallExpr(self, n):
        callee = n['inner'][0]
        f = self.eval(callee)
        if isinstance(f, Ref):
            f = f.get()
        if isinstance(f, FnV):
            if f.mangled is not None and self.is_crg(f.mangled):
                return self.call_crg(f.mangled, None, self.call_args(n['inner'][1:]), n)
            return stl.call_function(self, f.name, n['inner'][1:], n)
        if isinstance(f, LambdaV):
            return self.call_lambda(f, self.call_args(n['inner'][1:]))
        name = self.member_name(callee)
        args = self.call_args(n['inner'][1:])
        if name and name.startswith('vk'):
            return self.vk_call(name, args, n)
        return self.call_opaque(name or 'fn', f, args, n)

    def member_name(self, c):
        while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
            c = c['inner'][0]
        if c.get('kind') == 'MemberExpr':
            return c.get('name')
        if c.get('kind') == 'DeclRefExpr':
            return c.get('referencedDecl', {}).get('name')
        return None

    def is_crg(self, m):
        return m in self.prog.funcs or m in self.prog.fdecls

    def call_crg(self, m, this, args, n, virtual=True):
        con = self.contract_for(m)
        if con is not None and not con.inline:
            return self.call_contract(con, m, this, args, n)
        if m not in self.prog.funcs:
            d = self.prog.fdecls.get(m)
            if d and d[0][1].get('explicitlyDefaulted') == 'default' or d and d[0][1].get('isImplicit'):
                return self.defaulted(d[0][1], this, args)
            return self.call_extern(m, this, args, n)
        tu, fn = self.prog.funcs[m]
        if (fn.get('isImplicit') or fn.get('explicitlyDefaulted')) and fn.get('name') == 'operator=' and isinstance(this, Ref):
            return self.defaulted(fn, this, args)
        self.inlined.add(self.prog.qname.get(m, m))
        fr = Frame(tu, fn, this)
        if con is not None:
            fr.inl_loops = con.loops
        return self.merged(lambda: self.run_body(Frame_copy(fr), fn, args))

    def defaulted(self, fn, this, args):
        if fn.get('name') == 'operator=':
            v = self.rv(args[0])
            this.set(v)
            return this
        raise Unsupported('defaulted ' + str(fn.get('name')))

    def contract_for(self, m):
        return self.contracts.get(m)

    def call_extern(self, m, this, args, n):
        """a function of the library whose body was not extracted and has no contract"""
        q = self.prog.qname.get(m, m)
        self.externs.add(q)
        ty = self.T.parse(n['type'])
        if ty.k == 'void':
            self.S.trace.append(Event('extern:' + q, {}))
            return None
        raise Unsupported('call to %s: no body, no contract' % q)

    def call_contract(self, con, m, this, args, n):
        fn = self.prog.fdecls[m][0][1]
        if m in self.prog.funcs:
            fn = self.prog.funcs[m][1]
        self.called_contracts.add(con.key)
        fr = Frame(self.prog.fdecls[m][0][0], fn, this)
        self.bind_params(fr, fn, args)
        params = [c for c in fn.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        ctx = CallCtx(self, fr, params, this)
        for nm, g in con.requires(ctx):
            self.oblige('precondition "%s" of %s at the call' % (nm, con.key), g, 'pre', n.get('line'))
            self.assume(g)
        ctx.save_pre()
        rt = self.ret_type(fn['type']['qualType'])
        made = con.result(ctx) if con.result is not None else None
        if made is not None:
            ctx.result = made
        elif rt is not None and rt.k not in ('void',):
            if rt.k == 'ref':
                a = self.fresh_term(BV64, 'retref')
                ctx.result = self.deref(a, rt.a)
            else:
                ctx.result = self.fresh(rt, 'ret_' + fn.get('name', 'f'))
        if con.throws_when is not None:
            if self.branch(con.throws_when(ctx)):
                raise CppThrow('exception thrown by ' + con.key)
        if con.may_throw is not None:
            if self.branch(z3.And(con.may_throw(ctx), self.fresh_term(z3.BoolSort(), 'throws'))):
                con.havoc(ctx)
                raise CppThrow('exception thrown by ' + con.key)
        con.havoc(ctx)
        ctx.at_call = True          # what a caller assumes must not read the (empty) trace of the call
        post = con.call_ensures(ctx)
        ctx.at_call = False
        for nm, g in post:
            self.assume(g)
        if con.emits is not None:
            con.emits(ctx)
        return ctx.result

    def e_CXXMemberCallExpr(self, n):
        me = n['inner'][0]
        mp = self.eval(me)
        while me.get('kind') in ('ParenExpr', 'ImplicitCastExpr'):
            me = me['inner'][0]
        did = me.get('referencedMemberDecl')
        d = self.prog.decls.get((self.frames[-1].tu, did))
        args = n['inner'][1:]
        if d is not None and d.get('kind') in FUNCS:
            m = d.get('mangledName')
            ref = mp.ref
            if d.get('storageClass') == 'static':
                ref = None
            if d.get('kind') == 'CXXConversionDecl' and ref is not None and not isinstance(ref, HeapObj):
                lv = ref.v if isinstance(ref, Const) else ref.get()
                if isinstance(lv, LambdaV):
                    return lv
            if isinstance(ref, Const):
                ref = self.new_cell(ref.v, ref.ty)
            if d.get('virtual') and isinstance(ref, HeapObj) and self.contract_for(m) is None and m not in self.prog.funcs:
                return self.call_extern(m, ref, self.call_args(args), n)
            return self.call_crg(m, ref, self.call_args(args), n)
        return stl.call_method(self, mp.ref, mp.name, args, n)

    def e_CXXOperatorCallExpr(self, n):
        c = n['inner'][0]
        while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
            c = c['inner'][0]
        rd = c.get('referencedDecl', {})
        name = rd.get('name', '')
        did = rd.get('id')
        d = self.prog.decls.get((self.frames[-1].tu, did))
        argn = n['inner'][1:]
        if name == 'operator=' and (d is None or d.get('isImplicit') or d.get('explicitlyDefaulted')):
            lv = self.eval(argn[0])
            v = self.rv(self.eval(argn[1]))
            if not isinstance(lv, Ref):
                raise Unsupported('assignment to rvalue')
            return stl.assign(self, lv, v)
        if d is not None and d.get('kind') in FUNCS and not self.lambda_op(d):
            m = d.get('mangledName')
            args = self.call_args(argn)
            if d.get('kind') == 'CXXMethodDecl':
                this = args[0] if isinstance(args[0], Ref) else self.new_cell(args[0], self.T.parse(argn[0]['type']).noref())
                return self.call_crg(m, this, args[1:], n)
            return self.call_crg(m, None, args, n)
        return stl.call_operator(self, name, argn, n)

    def lambda_op(self, d):
        return d.get('name') == 'operator()' and not d.get('cls')

    def e_CXXConstructExpr(self, n):
        ty = self.T.parse(n['type']).noref()
        args = n.get('inner', [])
        ct = n.get('ctorType', {}).get('qualType', '')
        return stl.construct(self, ty, args, ct, n)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def run_ctor(self, m, ref, args):
        """run constructor m on the object behind ref"""
        con = self.contract_for(m)
        tu, fn = self.prog.funcs[m]
        cls = self.prog.cls_of[m]
        fr = Frame(tu, fn, ref)
        self.inlined.add(self.prog.qname.get(m, m))
        self.bind_params(fr, fn, args)
        self.frames.append(fr)
        try:
            self.exec_inits(fn, cls, ref)
            try:
                self.exec(body_of(fn))
            except Return_:
                pass
        finally:
            self.frames.pop()

    def exec_inits(self, fn, cls, ref):
        inits = [c for c in fn.get('inner', []) if c.get('kind') == 'CXXCtorInitializer']
        done = set()
        delegating = False
        for c in inits:
            if 'anyInit' in c:
                f = c['anyInit']['name']
                done.add(f)
                e = c['inner'][0] if c.get('inner') else None
                fty = self.T.field_ty(cls, f) if f else None
                if not f:
                    continue
                if e is not None and e.get('kind') == 'CXXDefaultInitExpr' and not e.get('inner'):
                    node = [x for a, t, x in self.T.fields(cls) if a == f][0]
                    ini = self.field_init(node)
                    ref.field(self, f).set(self.conv_init(ini, fty, node.get('tu')) if ini is not None else self.zero(fty))
                    continue
                if fty.k == 'opaque':
                    continue
                while fty.k == 'ref' and unwrap(e).get('kind') == 'InitListExpr' and len(unwrap(e).get('inner', [])) == 1:
                    e = unwrap(e)['inner'][0]
                x = self.eval(e)
                if fty.k == 'ref':
                    ref.field(self, f).set(self.addr_of(x))
                else:
                    ref.field(self, f).set(self.coerce(self.rv(x), fty))
            elif c.get('baseInit') is not None:
                e = unwrap(c['inner'][0]) if c.get('inner') else None
                if e is None or e.get('kind') == 'CXXInheritedCtorInitExpr':
                    raise Unsupported('base initialiser')
                if e.get('kind') not in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                    ref_ty = self.T.parse(e['type']).noref()
                    v = self.rv(self.eval(e))
                    for f, t, nn in self.T.fields(ref_ty.name):
                        if t.k != 'ref' and f:
                            ref.field(self, f).set(v.get(f))
                else:
                    bty = self.T.parse(e['type']).noref()
                    if bty.k == 'struct':
                        stl.construct_into(self, ref, bty, e)
            elif c.get('inner'):
                # delegating constructor
                e = unwrap(c['inner'][0])
                delegating = True
                stl.construct_into(self, ref, Ty('struct', name=cls), e)

    def e_CXXNewExpr(self, n):
        ty = self.T.parse(n['type'])
        for c in n.get('inner', []):
            if c.get('kind') == 'CXXConstructExpr':
                return stl.alloc(self, ty.a, c)
        raise Unsupported('new expression')

    def e_CXXDeleteExpr(self, n):
        self.eval(n['inner'][0])

    def e_CXXThrowExpr(self, n):
        raise CppThrow('throw')

    def e_CXXNoexceptExpr(self, n):
        return z3.BoolVal(True)

    def e_CXXRewrittenBinaryOperator(self, n):
        return self.eval(n['inner'][0])

    def e_TypeTraitExpr(self, n):
        return z3.BoolVal(bool(n.get('value')))

    def e_UserDefinedLiteral(self, n):
        return self.e_CallExpr(n)

    # ------------------------------------------------------------------ Vulkan
    def vk_call(self, name, args, n):
        sig = self.vk.pfn.get('PFN_' + name)
        if sig is None:
            raise Unsupported('unknown Vulkan entry point ' + name)
        rty, params = sig
        ev = {}
        outs = []
        for (pn, pt), a in zip(params, args):
            v = self.rv(a)
            t = self.T.parse(pt)
            if t.k == 'ptr' and 'const' not in pt and (t.a.k != 'void' or isinstance(v, (PtrRef, PtrElem))):
                outs.append((pn, v, t.a))
                continue
            ev[pn] = self.snapshot_ptr(v)
        h = getattr(self, 'vk_hook', None)
        for pn, v, t in outs:
            if isinstance(v, PtrRef):
                nv = self.fresh(t if t.k != 'void' else v.ref.ty.noref(), 'out_' + pn)
                v.ref.set(nv)
                ev[pn] = nv
            elif isinstance(v, PtrElem) and name.startswith('vkCreate') and conc_int(ev.get('createInfoCount', z3.BitVecVal(1, 32))) == 1:
                # one object made: one element written
                old = v.vec.get()
                nv = self.fresh(t, 'out_' + pn)
                v.vec.set(old.set(v.idx, nv))
                ev[pn] = nv
            elif isinstance(v, PtrElem):
                # array output: the whole sequence becomes unknown
                old = v.vec.get()
                t = t if t.k != 'void' else old.ety
                nv = self.fresh(VEC(t), 'out_' + pn)
                self.assume(nv.len == old.len)
                if isinstance(old, ArrV):
                    nv = ArrV(self, t, old.n, None, nv.arr)
                v.vec.set(nv)
                ev[pn] = nv
            else:
                ev[pn] = v
        ret = None
        rt = self.T.parse(rty)
        if rt.k != 'void':
            ret = self.fresh(rt, 'ret_' + name)
        self.S.trace.append(Event(name, ev, ret))
        return ret

    def snapshot_ptr(self, v):
        """value snapshot of what a pointer argument points to"""
        if isinstance(v, PtrRef):
            x = v.ref.get()
            return ('ptr', x)
        if isinstance(v, PtrElem):
            return ('arr', v.vec.get(), v.idx)
        return v

    def call_opaque(self, name, f, args, n):
        """call through a std::function / function pointer of unknown value"""
        vals = []
        for a in args:
            v = self.rv(a) if not (isinstance(a, HeapObj)) else a
            vals.append(v)
        ty = self.T.parse(n['type'])
        ret = None
        h = self.opaque_hooks.get(name) if hasattr(self, 'opaque_hooks') else None
        if h:
            r = h(self, f, vals, n)
            if r is not NotImplemented:
                return r
        if not vals and ty.k not in ('ref', 'void', 'opaque') and isinstance(f, z3.ExprRef):
            # a value callback: what it returns depends on the function object only
            srt = self.T.sort(ty)
            self.pure_callbacks = True
            return self.from_term(z3.Function('cb!%s' % srt.name() if hasattr(srt, 'name') else 'cb!', f.sort(), srt)(f), ty)
        if ty.k == 'ref':
            ret = self.deref(self.fresh_term(BV64, 'cbref'), ty.a)
        elif ty.k != 'void':
            # deterministic in the function object and the arguments
            ret = self.fresh(ty, 'cb_' + name)
            if name in getattr(self, 'cb_assume', {}):
                self.assume(self.cb_assume[name](self, ret))     # documented assumption on a user callback
        self.S.trace.append(Event('call:' + name, {'fn': f, **{'a%d' % i: v for i, v in enumerate(vals)}}, ret))
        seen = self.S.trace[-1].seen = {}
        for vi, v in enumerate(args):
            # the callee may change whatever it is handed by reference
            if isinstance(v, Ref) and v.ty is not None and v.ty.noref().k == 'struct' and v.ty.noref().name.startswith('crg::') and not self.T.is_id(v.ty.noref()):
                cls = v.cls if isinstance(v, HeapObj) else v.ty.noref().name
                for nm, t, _ in self.T.fields(cls):
                    if cls == 'crg::GraphContext' and nm not in ('delQueue', 'm_allocated'):
                        continue        # entry points and properties are fixed at creation
                    if cls == 'crg::FramePass' or (cls == 'crg::RunnableGraph' and nm not in ('m_resources', 'm_timerQueryOffset', 'm_states', 'm_fence', 'm_timer', 'm_commandBuffer')):
                        continue        # handed as const; private and without public mutator
                    if nm and t.k != 'ref' and not (cls == 'crg::RecordContext' and nm in ('m_handler', 'm_resources')):
                        try:
                            seen[(vi, nm)] = v.field(self, nm).get()      # what the callee is handed
                            v.field(self, nm).set(self.fresh(t, 'cbw_' + nm))
                        except Unsupported:
                            pass
                if cls in CLASS_INV:
                    self.assume(CLASS_INV[cls](self, v))
        return ret

    # ------------------------------------------------------------------ equality
    def eq_val(self, a, b):
        a, b = self.rv(a), self.rv(b)
        if isinstance(a, tuple) and a and a[0] == 'ptr':
            a = a[1]
        if isinstance(b, tuple) and b and b[0] == 'ptr':
            b = b[1]
        if isinstance(a, int) and not isinstance(a, bool):
            a = bv(a, b.size())
        if isinstance(b, int) and not isinstance(b, bool):
            b = bv(b, a.size())
        if isinstance(a, bool):
            a = z3.BoolVal(a)
        if isinstance(b, bool):
            b = z3.BoolVal(b)
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            if z3.is_bool(a) and z3.is_bv(b):
                return simp(a == (b != 0))
            if z3.is_bool(b) and z3.is_bv(a):
                return simp(b == (a != 0))
            if z3.is_bv(a) and z3.is_bv(b) and a.size() != b.size():
                w = max(a.size(), b.size())
                a, b = self.resize(a, INT(w, False), False), self.resize(b, INT(w, False), False)
            return simp(a == b)
        if isinstance(a, StructV) and isinstance(b, StructV):
            return simp(z3.And([self.eq_val(a.get(f), b.get(f)) for f, t, n in self.T.fields(a.ty.name) if t.k not in ('opaque',)] or [z3.BoolVal(True)]))
        if isinstance(a, IterV) and isinstance(b, IterV):
            return simp(a.idx == b.idx)
        if isinstance(a, MapIter) and isinstance(b, MapIter):
            return simp(z3.Or(z3.And(a.end, b.end), z3.And(z3.Not(a.end), z3.Not(b.end), a.key == b.key)))
        if isinstance(a, VecV) and isinstance(b, VecV):
            if a.conc is not None and b.conc is not None:
                if len(a.conc) != len(b.conc):
                    return z3.BoolVal(False)
                return simp(z3.And([self.eq_val(x, y) for x, y in zip(a.conc, b.conc)] or [z3.BoolVal(True)]))
            j = z3.BitVec('j!eq', 64)
            return z3.And(a.len == b.len, z3.ForAll([j], z3.Implies(z3.ULT(j, a.len), z3.Select(a.array(), j) == z3.Select(b.array(), j))))
        if isinstance(a, (PtrRef, PtrElem)) or isinstance(b, (PtrRef, PtrElem)):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (PtrRef, PtrElem)) and isinstance(y, z3.ExprRef) and conc_int(y) == 0:
                    return z3.BoolVal(False) if isinstance(x, PtrRef) else self.to_term(x, PTR(VOID)) == 0
            if isinstance(a, PtrElem) and isinstance(b, PtrElem):
                return simp(a.idx == b.idx)
            if isinstance(a, PtrRef) and isinstance(b, PtrRef) and self.ptr_name(a) == self.ptr_name(b):
                return z3.BoolVal(True)
            return self.to_term(a, PTR(VOID)) == self.to_term(b, PTR(VOID))
        if isinstance(a, (LambdaV, FnV)) or isinstance(b, (LambdaV, FnV)):
            for x, y in ((a, b), (b, a)):
                if isinstance(y, z3.ExprRef) and conc_int(y) == 0:
                    return z3.BoolVal(False)
            return z3.BoolVal(a is b)
        if isinstance(a, OptV) and isinstance(b, OptV):
            return simp(z3.And(a.has == b.has, z3.Implies(a.has, self.eq_val(a.val, b.val) if a.val is not None and b.val is not None else z3.BoolVal(True))))
        if isinstance(a, PairV) and isinstance(b, PairV):
            return simp(z3.And(self.eq_val(a.first, b.first), self.eq_val(a.second, b.second)))
        if isinstance(a, MapV) and isinstance(b, MapV):
            ks = self.T.ksort(a.ty.a)
            k = z3.Const('k!eqm', ks)
            body = z3.And(z3.Select(a.dom, k) == z3.Select(b.dom, k),
                          z3.Implies(z3.Select(a.dom, k), z3.Select(a.val, k) == z3.Select(b.val, k)) if not a.isset else z3.BoolVal(True))
            return z3.ForAll([k], body)
        raise Unsupported('equality of %r and %r' % (type(a), type(b)))

    def iter_deref(self, it):
        if isinstance(it, IterV):
            idx = simp(it.idx - 1) if it.rev else it.idx
            if self.safety:
                self.oblige('iterator is dereferenceable', z3.ULT(idx, it.vec.get().len), 'safety')
            return ElemRef(self, it.vec, idx)
        if isinstance(it, MapIter):
            if self.safety:
                self.oblige('iterator is dereferenceable', z3.Not(it.end), 'safety')
            m = it.map.get()
            if m.isset:
                return Const(self, m.keyval(it.key), m.ty.a)
            return MapPairRef(self, it.map, it.key)
        raise Unsupported('deref %r' % type(it))


def Frame_copy(fr):
    f = Frame(fr.tu, fr.fn, fr.this)
    f.vars = dict(fr.vars)
    f.names = dict(fr.names)
    if hasattr(fr, 'inl_loops'):
        f.inl_loops = fr.inl_loops
    return f


class SeqGhost:
    """ghost index of a range-for over a sequence"""

    def __init__(self, E, ref):
        self.E = E
        self.ref = ref
        self.cell = E.new_cell(bv(0), U64)

    def i(self):
        return self.cell.get()

    def step(self):
        self.cell.set(simp(self.cell.get() + 1))

    def havoc(self, E):
        v = E.fresh_term(BV64, 'i')
        E.S.store[self.cell.id] = v
        E.assume(z3.ULE(v, self.ref.get().len))


# class -> invariant its objects keep: every function under contract that writes them preserves it, so a callback does
CLASS_INV = {}


class MapGhost:
    """ghost visited-set of a range-for over an associative container"""

    def __init__(self, E, ref):
        self.E, self.ref = E, ref
        m = ref.get()
        ks = E.T.ksort(m.ty.a)
        self.ks = ks
        self.vis = E.new_cell(z3.K(ks, z3.BoolVal(False)), Ty('opaque', name='visited'))
        self.key = E.new_cell(E.fresh_term(ks, 'curkey'), Ty('opaque', name='key'))

    def visited(self):
        return self.vis.get()

    def cur(self):
        return self.key.get()

    def cond(self):
        E = self.E
        m = self.ref.get()
        more = E.fresh_term(z3.BoolSort(), 'more')
        k = E.fresh_term(self.ks, 'key')
        E.S.store[self.key.id] = k
        j = z3.Const('j!mg', self.ks)
        unv = lambda x: z3.And(z3.Select(m.dom, x), z3.Not(z3.Select(self.vis.get(), x)))
        E.assume(z3.Implies(more, unv(k)))
        if z3.is_bv_sort(self.ks) and m.ty.name == 'ordered':
            E.assume(z3.Implies(more, z3.ForAll([j], z3.Implies(unv(j), z3.ULE(k, j)))))
        E.assume(z3.Implies(z3.Not(more), z3.ForAll([j], z3.Select(m.dom, j) == z3.Select(self.vis.get(), j))))
        return more

    def step(self):
        self.vis.set(z3.Store(self.vis.get(), self.key.get(), z3.BoolVal(True)))

    def havoc(self, E):
        v = E.fresh_term(z3.ArraySort(self.ks, z3.BoolSort()), 'visited')
        E.S.store[self.vis.id] = v
        j = z3.Const('j!mg', self.ks)
        E.assume(z3.ForAll([j], z3.Implies(z3.Select(v, j), z3.Select(self.ref.get().dom, j))))


class CtxBase:
    def __init__(self, E, fr):
        self.E, self.fr = E, fr

    def local(self, name):
        """a local variable by name"""
        r = self.fr.names.get(name)
        if r is None:
            raise Unsupported('contract mentions local "%s" which the function no longer has' % name)
        return r


class LoopCtx(CtxBase):
    """what an invariant may talk about"""

    def __init__(self, E, fr, ghost):
        CtxBase.__init__(self, E, fr)
        self.ghost = ghost
        self.pre = None
        self.begin = None
        self.loopvars = fr.loopvars
        self.params = [c for c in (fr.fn or {}).get('inner', []) if c.get('kind') == 'ParmVarDecl']

    def snapshot(self):
        self.pre = (dict(self.E.S.store), dict(self.E.S.heap))
        return self

    def with_pre(self, spec):
        return self.snapshot()

    def begin_body(self):
        try:
            self.i0 = self.ghost.i()
        except Exception:
            self.i0 = None
        self.begin = (dict(self.E.S.store), dict(self.E.S.heap))

    def in_state(self, st, f):
        s, h = self.E.S.store, self.E.S.heap
        self.E.S.store, self.E.S.heap = {**s, **st[0]}, dict(st[1])
        try:
            return f()
        finally:
            self.E.S.store, self.E.S.heap = s, h

    def old(self, ref):
        """value of ref when the loop was entered"""
        return self.in_state(self.pre, lambda: ref.get())

    def entry(self, ref):
        """value of ref when the function under verification was entered"""
        e = self.E.entry_state
        return self.in_state(e, lambda: ref.get())

    def entry_arg(self, i):
        """value of parameter i when the function under verification was entered"""
        return self.E.entry_ctx.av(i)

    def at_begin(self):
        return self

    def b(self, ref):
        return self.in_state(self.begin, lambda: ref.get())

    @property
    def this(self):
        return self.fr.this

    def f(self, name):
        return self.fr.this.field(self.E, name)

    def a(self, i):
        return self.fr.vars[self.params[i]['id']]

    def av(self, i):
        return self.a(i).get()

    def lv(self, depth=0):
        """variable declared in the header of this loop (depth 0) or of the enclosing for-loops"""
        l = self.loopvars[-1 - depth] if len(self.loopvars) > depth else []
        if not l:
            raise Unsupported('the loop has no header variable')
        return l[0].get()

    @property
    def i(self):
        return self.ghost.i()

    @property
    def visited(self):
        return self.ghost.visited()

    @property
    def key(self):
        """key of the element the iteration is at"""
        return self.ghost.cur()

    def v(self, name):
        return self.local(name).get()

    def by_type(self, pred, which=0):
        """the which-th local whose declared type satisfies pred (declaration order)"""
        out = []
        for nm, r in self.fr.names.items():
            t = r.ty
            if t is not None and pred(t.noref()) and nm not in [p.get('name') for p in self.params]:
                out.append(r)
        if len(out) <= which:
            raise Unsupported('no local of the expected type')
        return out[which]


class CallCtx(CtxBase):
    """what pre/postconditions may talk about"""

    def __init__(self, E, fr, params, this):
        CtxBase.__init__(self, E, fr)
        self.params, self.this = params, this
        self.result = None
        self.pre = None

    def a(self, i):
        return self.fr.vars[self.params[i]['id']]

    def save_pre(self):
        self.pre = (dict(self.E.S.store), dict(self.E.S.heap))
        self.pre_trace = len(self.E.S.trace)

    def av(self, i):
        """value of argument i (at entry)"""
        r = self.a(i)
        if self.pre is None:
            return r.get()
        return self.old(r)

    def old(self, ref):
        s, h = self.E.S.store, self.E.S.heap
        self.E.S.store, self.E.S.heap = {**s, **self.pre[0]}, dict(self.pre[1])
        try:
            return ref.get()
        finally:
            self.E.S.store, self.E.S.heap = s, h

    def f(self, name):
        return self.this.field(self.E, name)

    def res(self):
        return self.E.rv(self.result)

    def events(self):
        if getattr(self, 'at_call', False):
            raise Unsupported('the contract of %s speaks of events and needs its own call_ensures' % self.fr.fn.get('name'))
        return self.E.S.trace[self.pre_trace:]
