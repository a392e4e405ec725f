"""Contracts and the per-function verification driver."""
import time
import traceback
import z3
from .cxxtypes import *
from .values import *
from .engine import *
from .interp import Interp, CallCtx, Frame_copy
from .extract import body_of


class LoopSpec:
    """invariant (and emitted ghost-trace segment) of one loop"""

    def __init__(self, inv, emits=None, count=None, allow_events=False, iter=None, label=None):
        self.inv, self.emits, self.count, self.allow_events, self.iter, self.label = inv, emits, count, allow_events, iter, label


class Contract:
    """requires/ensures: ctx -> [(name, formula)].  `qn` is the qualified name of the real function,
    `np` its number of parameters, `sub` a substring of its type when overloaded."""

    def __init__(self, qn, ensures=None, requires=None, np=None, sub=None, inline=False, loops=None,
                 result=None, throws_when=None, havoc=None, emits=None, key=None, bounded_unroll=None,
                 nothrow=True, replay=None, setup=None, frame=True, post_throw=None, modular=True, call_ensures=None, spec_fn=False, assumed=False, trace_ok=False, may_throw=None, trace=None, budget=0, recursive=False, ematch=False, uses=None):
        self.qn, self.np, self.sub = qn, np, sub
        self.key = key or qn
        self.inline = inline
        self._requires = requires or (lambda c: [])
        self._ensures = ensures or (lambda c: [])
        self.loops = loops or {}
        self.result = result
        self.throws_when = throws_when
        self._havoc = havoc
        self.emits = emits
        self.unroll = bounded_unroll
        self.nothrow = nothrow
        self.setup = setup
        self.frame = frame
        self.post_throw = post_throw
        self.modular = modular
        self._call_ensures = call_ensures
        self.spec_fn, self.assumed, self.trace_ok = spec_fn, assumed, trace_ok
        self.budget = budget
        self.ematch = ematch
        self.uses = uses
        self.recursive = recursive      # calls itself: partial correctness, by its own contract
        self.may_throw = may_throw      # condition under which the function is allowed to throw

    def requires(self, c):
        return self._requires(c)

    def ensures(self, c):
        return self._ensures(c)

    def call_ensures(self, c):
        """what a caller may assume (same as ensures unless the postcondition is stated with skolem constants)"""
        return self._call_ensures(c) if self._call_ensures else self._ensures(c)

    def havoc(self, c):
        if self._havoc:
            self._havoc(c)


class FnResult:
    def __init__(self, key):
        self.key = key
        self.obls = []
        self.error = None
        self.missing = False
        self.bounded_loops = []
        self.inlined = []
        self.contracts = []
        self.externs = []
        self.paths = 0
        self.wall = 0.0
        self.reach = None
        self.where = None
        self.stats = {}
        self.imprecise = False


def declared_frame(E, con, ctx):
    """what the contract's havoc clause lets a caller think may change"""
    S0 = E.S
    E.S = S0.copy()
    w0, E.writes = E.writes, set()
    npc = len(E.run.pc)
    try:
        con.havoc(ctx)
        return dict(store=dict(E.S.store), heap=dict(E.S.heap), roots=set(E.writes), store0=dict(S0.store), heap0=dict(S0.heap))
    finally:
        E.S, E.writes = S0, w0
        del E.run.pc[npc:]


def check_frame(E, con, ctx, fr, suffix):
    for cid, v0 in fr['store0'].items():
        v1 = E.S.store.get(cid)
        if v1 is v0:
            continue
        vh = fr['store'].get(cid)
        if vh is v0:
            try:
                g = E.eq_val(v1, v0)
            except Unsupported:
                g = z3.BoolVal(False)
            E.oblige('changes nothing but what it declares%s' % suffix, g, 'frame')
        elif isinstance(vh, StructV) and isinstance(v0, StructV):
            for f, t, n in E.T.fields(v0.ty.name):
                if t.k != 'ref' and (f in vh.f) and f in v0.f and vh.f[f] is v0.f[f]:
                    E.oblige('changes nothing but what it declares%s' % suffix, E.eq_val(v1.get(f), v0.get(f)), 'frame')
    for k, a1 in E.S.heap.items():
        a0 = fr['heap0'].get(k)
        if a0 is None:
            if z3.is_const(a1) and a1.decl().name() == 'H!%s.%s' % k:
                continue
            a0 = z3.Const('H!%s.%s' % k, a1.sort())
        if a1.eq(a0):
            continue
        ah = fr['heap'].get(k, a0)
        keys, x = [], ah
        while z3.is_store(x):
            keys.append(x.arg(1))
            x = x.arg(0)
        if not x.eq(a0):
            continue            # the whole field may change
        q = z3.BitVec('x!fr', 64)
        base, w1 = a1, []
        while z3.is_store(base):
            w1.append(base.arg(1))
            base = base.arg(0)
        if base.eq(a0):
            # only the written addresses matter
            for w in w1:
                E.oblige('changes nothing but what it declares%s (%s.%s)' % ((suffix,) + k), z3.Or([w == y for y in keys] + [E.is_new(w)] + [z3.Select(a1, w) == z3.Select(a0, w)]), 'frame')
        else:
            E.oblige('changes nothing but what it declares%s (%s.%s)' % ((suffix,) + k), z3.ForAll([q], z3.Or([q == y for y in keys] + [z3.Select(a1, q) == z3.Select(a0, q)])), 'frame')


def make_param(E, ty, name):
    if ty.k == 'ref':
        t = ty.a
        if t.k == 'struct' and t.name.startswith('crg::') and not E.T.is_id(t):
            a = z3.BitVec('arg_' + name, 64)
            E.assume(a != 0)
            return HeapObj(E, t.name, a)
        v = E.fresh(t, 'arg_' + name)
        return E.new_cell(v, t)
    return E.new_cell(E.fresh(ty, 'arg_' + name), ty)


def check_sat(pc, goal, timeout, seed=1, mbqi=True):
    s = z3.Solver()
    if not mbqi:
        s.set('smt.mbqi', False)
        s.set('smt.auto_config', False)
        s.set('smt.relevancy', 1)
    s.set('timeout', int(timeout * 1000))
    s.set('random_seed', seed)
    for p in pc:
        s.add(p)
    s.add(z3.Not(goal))
    return s.check(), s


def discharge(o, timeout, use_cvc5=True):
    t0 = time.time()
    o.backend = 'z3'
    qf = [p for p in o.pc if not has_quant(p)]
    r = z3.unknown
    if len(qf) < len(o.pc):
        # dropping hypotheses is sound for a proof
        r, s = check_sat(qf, o.goal, 1)
        if r != z3.unsat:
            r = z3.unknown
    if r == z3.unknown and o.slice is not None:
        # the hypotheses the contract names for this goal
        for sl in o.slice:
            r, s = check_sat(sl, o.goal, timeout, mbqi=not o.ematch)
            if r == z3.unsat:
                break
            r = z3.unknown
            if o.ematch and use_cvc5 and cvc5_check(sl, o.goal, timeout, ['--no-cbqi']) == 'unsat':
                r, o.backend = z3.unsat, 'cvc5'
                break
    if r == z3.unknown and o.ematch:
        r, s = check_sat(o.pc, o.goal, timeout, mbqi=False)
        if r != z3.unsat:
            r = z3.unknown
    if r == z3.unknown:
        r, s = check_sat(o.pc, o.goal, timeout)
    if r == z3.unknown and len(qf) < len(o.pc):
        r, _ = check_sat(qf, o.goal, min(timeout, 6))
        if r != z3.unsat:
            r = z3.unknown
    if r == z3.unknown and use_cvc5:
        r2 = cvc5_check(o.pc, o.goal, timeout)
        if r2 == 'unsat':
            r, o.backend = z3.unsat, 'cvc5'
    o.time = time.time() - t0
    if r == z3.unsat:
        o.status = 'proved'
    elif r == z3.sat:
        o.status = 'refuted'
        try:
            m = s.model()
            o.model = {}
            for d in m.decls():
                n = d.name()
                if n.startswith(('arg_', 'this', 'H!')) or '!' in n:
                    try:
                        x = str(m[d])
                        if len(x) < 400:
                            o.model[n] = x
                    except Exception:
                        pass
                if len(o.model) > 60:
                    break
        except z3.Z3Exception:
            o.model = None
    else:
        o.status = 'unknown'
    return o


def cvc5_check(pc, goal, timeout, opts=()):
    import subprocess
    import tempfile
    import os
    s = z3.Solver()
    s.add(*pc)
    s.add(z3.Not(goal))
    txt = '(set-logic ALL)\n' + s.to_smt2()
    txt = '\n'.join(l for l in txt.split('\n') if not l.startswith('(set-info'))
    fd, p = tempfile.mkstemp(suffix='.smt2')
    try:
        os.write(fd, txt.encode())
        os.close(fd)
        out = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000)] + list(opts) + [p], capture_output=True, text=True, timeout=timeout + 5)
        return out.stdout.strip().split('\n')[-1] if out.stdout.strip() else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(p)


def discharge_all(obls, timeout, jobs=None):
    """each non-trivial obligation in a forked child with a hard wall-clock limit"""
    import os
    import pickle
    import select
    import signal
    jobs = jobs or int(os.environ.get('CRGV_JOBS', '8'))
    todo = []
    for o in obls:
        if o.status:
            continue
        if z3.is_true(o.goal) or any(z3.is_false(p) for p in o.pc):
            o.status, o.backend = 'proved', 'simplifier'
        else:
            todo.append(o)
    run = {}
    limit = timeout * 6 + 10
    deadline = float(os.environ.get('CRGV_DEADLINE', '0')) or float('inf')
    while todo or run:
        if time.time() > deadline:
            # the run's time is spent: what is not decided by now stays undecided
            for o in todo:
                o.status, o.backend, o.time = 'unknown', 'z3', 0
            todo = []
        while todo and len(run) < jobs:
            o = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    discharge(o, timeout)
                    os.write(w, pickle.dumps((o.status, o.backend, o.time, o.model))[:60000])
                finally:
                    os._exit(0)
            os.close(w)
            run[r] = (pid, o, time.time(), b'')
        rd, _, _ = select.select(list(run), [], [], 0.5)
        for r in list(run):
            pid, o, t0, buf = run[r]
            done = False
            if r in rd:
                d = os.read(r, 65536)
                if d:
                    run[r] = (pid, o, t0, buf + d)
                else:
                    done = True
            if not done and (time.time() - t0 > limit or time.time() > deadline):
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
                done = True
            if done:
                os.close(r)
                os.waitpid(pid, 0)
                try:
                    o.status, o.backend, o.time, o.model = pickle.loads(run[r][3])
                except Exception:
                    o.status, o.backend, o.time = 'unknown', 'z3', time.time() - t0
                del run[r]


def resolve(prog, con):
    r = prog.find(con.qn, con.np, con.sub)
    return r


def verify(prog, vk, con, contracts, timeout=10, unroll=3, use_inv=True, budget=120, hints=True):
    """generate and discharge the obligations of one function"""
    res = FnResult(con.key)
    t0 = time.time()
    m = con.mangled
    if m is None or m not in prog.funcs:
        res.missing = True
        return res
    tu, fn = prog.funcs[m]
    cs = {k: v for k, v in contracts.items() if k != m or con.recursive}
    E = Interp(prog, vk, cs, unroll=con.unroll or unroll)
    E.use_invariants = use_inv
    E.ematch = con.ematch
    E.uses = con.uses
    E.use_hints = hints
    E.curfn = con.key
    E.deadline = time.time() + budget
    E.entry_state = None
    res.where = fn.get('line')
    out = []
    try:
        def go():
            E.frames = []
            this = None
            cls = prog.cls_of.get(m)
            if cls and fn.get('kind') != 'FunctionDecl' and fn.get('storageClass') != 'static':
                a = z3.BitVec('this', 64)
                E.assume(a != 0)
                this = HeapObj(E, cls, a)
            fr = Frame(tu, fn, this)
            params = [c for c in fn.get('inner', []) if c.get('kind') == 'ParmVarDecl']
            args = []
            for i, p in enumerate(params):
                args.append(make_param(E, E.T.parse(p['type']), p.get('name') or 'p%d' % i))
            fr0 = Frame(tu, fn, this)
            E.frames.append(fr0)
            E.bind_params(fr0, fn, args)
            ctx = CallCtx(E, fr0, params, this)
            if con.setup:
                con.setup(ctx)
            for nm, g in con.requires(ctx):
                E.assume(g)
            ctx.save_pre()
            E.entry_state = ctx.pre
            E.entry_ctx = ctx
            frame = declared_frame(E, con, ctx) if con.modular else None
            fr = Frame(tu, fn, this)
            fr.contract = con
            body = Frame_copy(fr)
            body.contract = con
            # parameters share cells with the contract context
            try:
                rv = E.run_body(body, fn, [fr0.vars[p['id']] for p in params])
            except CppThrow as e:
                if frame is not None:
                    check_frame(E, con, ctx, frame, ' (when throwing)')
                if con.throws_when is not None or con.may_throw is not None:
                    g = z3.BoolVal(False)
                    for h in (con.throws_when, con.may_throw):
                        if h is not None:
                            g = z3.Or(g, h(ctx))
                    E.oblige('throws only when allowed', g, 'throw')
                    if con.post_throw:
                        for nm, g in con.post_throw(ctx):
                            E.oblige(nm + ' (when throwing)', g, 'post')
                elif con.nothrow:
                    E.oblige('does not throw (%s)' % e.what, z3.BoolVal(False), 'throw')
                return
            ctx.result = rv
            if con.throws_when is not None:
                E.oblige('throws when required', z3.Not(con.throws_when(ctx)), 'throw')
            if frame is not None:
                check_frame(E, con, ctx, frame, '')
                if not con.trace_ok and con.emits is None and ctx.events():
                    E.oblige('issues no device command', z3.BoolVal(False), 'trace')
            for nm, g in con.ensures(ctx):
                E.oblige(nm, g, 'post')
            if con._call_ensures and not con.spec_fn:
                # what callers are told must hold too, when it is said in other words
                ctx.at_call = True
                told = con.call_ensures(ctx)
                ctx.at_call = False
                for nm, g in told:
                    if not nm.startswith('a successful creation'):
                        E.oblige('told to callers: ' + nm, g, 'post')
            return
        out = E.explore(go)
    except StaleHint:
        return verify(prog, vk, con, contracts, timeout, unroll, use_inv, budget, False)
    except Unsupported as e:
        res.error = 'unsupported: %s (line %s)' % (e, getattr(E, 'curline', None))
    except RecursionError:
        res.error = 'recursion'
    except Exception as e:
        res.error = 'engine: %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
    res.obls = E.obls
    res.bounded_loops = sorted(E.bounded_loops)
    res.inlined = sorted(E.inlined)
    res.contracts = sorted(E.called_contracts)
    res.externs = sorted(E.externs)
    res.imprecise = bool(E.externs)
    res.paths = len(out)
    res.stats = dict(E.stats)
    discharge_all(res.obls, timeout)
    res.reach = None
    if not res.error:
        # vacuity guard: at least one path through the function is feasible
        for pc, st, k, v in out[:4]:
            s = z3.Solver()
            s.set('timeout', 3000)
            for t, b in pc:
                if not has_quant(t):
                    s.add(t)
            r = s.check()
            if r == z3.sat or r == z3.unknown:
                res.reach = str(r)
                if r == z3.sat:
                    break
            else:
                res.reach = res.reach or 'unsat'
    res.wall = time.time() - t0
    return res
