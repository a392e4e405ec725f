"""Ordering of the passes of a graph (P05)."""
from .common import *
from . import submit as S
from .handlers import img_ok
FALSE = z3.BoolVal(False)
from .submit import names, find, obj, ident, ghost_ev, set_fresh

PTR = z3.BitVecSort(64)
ing = z3.Function('inGraph', PTR, z3.BoolSort())
pos = z3.Function('position', PTR, z3.BitVecSort(64))
touch = z3.Function('touch', PTR, z3.BoolSort())
rank = z3.Function('rank', PTR, z3.IntSort())


def okpat(vs, ps):
    for p in ps:
        seen, st = set(), list(p) if isinstance(p, tuple) else [p]
        while st:
            t = st.pop()
            if z3.is_quantifier(t) or (z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ)):
                return False
            seen.add(t.get_id())
            st += t.children()
        if not all(v.get_id() in seen for v in vs):
            return False
    return True


def mk(ps):
    return [z3.MultiPattern(*p) if isinstance(p, tuple) else p for p in ps]


_FA, _EX = ForAll, Exists


def ForAll(vs, g, patterns=()):
    return _FA(vs, g, patterns=mk(patterns)) if patterns and okpat(vs, patterns) else _FA(vs, g)


def Exists(vs, g, patterns=()):
    return _EX(vs, g, patterns=mk(patterns)) if patterns and okpat(vs, patterns) else _EX(vs, g)


def passobj(E, p):
    return E.deref(p, Ty('struct', name='crg::FramePass'))


def deps(E, p):
    return passobj(E, p).field(E, 'passDepends').get()


def pid(E, p):
    return passobj(E, p).field(E, 'id').get()


def mem(V, p, k, lo=None, hi=None):
    return Exists([k], And(ULT(k, V.len) if hi is None else ULT(k, hi), V.get(k) == p, TRUE if lo is None else ULE(lo, k)))


def graph_of(c, passes):
    """passes: the passes of one graph, each once, with unique ids; what they depend on are passes of the graph, without cycles"""
    E = c.E
    p, q = z3.BitVecs('p!g q!g', 64)
    a, b, e = z3.BitVecs('a!g b!g e!g', 64)
    d = deps(E, p)
    pa = [d.get(e)]
    return [('there is a pass', passes.len != 0), ('bound', ULT(passes.len, b64(1 << 32))),
            ('each pass is listed once', ForAll([a, b], Implies(And(ULT(a, b), ULT(b, passes.len)), passes.get(a) != passes.get(b)), [(passes.get(a), passes.get(b))])),
            ('in', ForAll([a], Implies(ULT(a, passes.len), ing(passes.get(a))), [passes.get(a)])),
            ('pos', ForAll([p], Implies(ing(p), And(ULT(pos(p), passes.len), passes.get(pos(p)) == p)), [ing(p)])),
            ('unique ids', ForAll([p, q], Implies(And(ing(p), ing(q), pid(E, p) == pid(E, q)), p == q), patterns=[(ing(p), ing(q))])),
            ('dependencies are in the graph', ForAll([p, e], Implies(And(ing(p), ULT(e, d.len)), And(ing(d.get(e)), rank(d.get(e)) < rank(p))), patterns=[(ing(p), d.get(e))]))]


def least(E, V):
    """a finite non-empty sequence has an element of least rank"""
    m, k = z3.BitVecs('m!l k!l', 64)
    return Implies(V.len != 0, Exists([m], And(ULT(m, V.len), ForAll([k], Implies(ULT(k, V.len), rank(V.get(m)) <= rank(V.get(k))), patterns=[V.get(k)]))))


def setup(c):
    for n, g in graph_of(c, c.a(0).get()):
        c.E.assume_tagged(g, 'graph: ' + n)
    x = z3.BitVec('x!t', 64)
    c.E.assume_tagged(ForAll([x], touch(x), [touch(x)]), 'touch')
    c.E.assume_tagged(least(c.E, c.a(0).get()), 'least')


def ordered(E, V):
    k, m, e = z3.BitVecs('k!o m!o e!o', 64)
    d = deps(E, V.get(k))
    return ForAll([k, e], Implies(And(ULT(k, V.len), ULT(e, d.len)), Exists([m], And(ULT(m, k), V.get(m) == d.get(e)), patterns=[V.get(m)])), patterns=[d.get(e)])


def locs(c):
    fr = c.fr
    ids = returned_id(fr.fn)
    r = fr.vars[ids]
    arr = []
    for x in locals_of(fr.fn):
        ref = fr.vars.get(x['id'])
        if ref is not None and ref.ty is not None and ref.ty.noref().k == 'vector' and x['id'] != ids and '&' not in x['type']['qualType']:
            arr.append(ref)
    return r, arr


def locals_of(fn):
    out = []

    def walk(n):
        if n.get('kind') == 'LambdaExpr':
            return
        if n.get('kind') == 'VarDecl' and not n.get('name', '__').startswith('__'):
            out.append(n)
        for x in n.get('inner', []):
            walk(x)
    walk(fn)
    return out


def returned_id(fn):
    out = []

    def walk(n):
        if n.get('kind') == 'LambdaExpr':
            return
        if n.get('kind') == 'ReturnStmt':
            inner(n)
        for x in n.get('inner', []):
            walk(x)

    def inner(n):
        if n.get('kind') == 'DeclRefExpr':
            out.append(n['referencedDecl']['id'])
        for x in n.get('inner', []):
            inner(x)
    walk(fn)
    if not out:
        raise Unsupported('returns no local')
    return out[0]


def core(c, parts):
    """sorted: in order; with the parts still to sort: the passes of the graph, each once"""
    E = c.E
    P = c.entry(c.a(0))
    sref, _ = locs(c)
    s = sref.get()
    a, b, k, p = z3.BitVecs('a!s b!s k!s p!s', 64)
    zero = b64(0)
    allp = [(s, zero)] + parts
    out = [('sorted passes follow what they depend on', ordered(E, s))]
    tot = s.len
    for V, lo in parts:
        tot = tot + (V.len - lo)
    out.append(('none is lost', And(tot == P.len, ULE(s.len, P.len), *[And(ULE(lo, V.len), ULE(V.len - lo, P.len)) for V, lo in parts])))
    out.append(('all are passes of the graph', And(*[ForAll([k], Implies(And(ULE(lo, k), ULT(k, V.len)), ing(V.get(k))), [V.get(k)]) for V, lo in allp])))
    out.append(('every pass is there', ForAll([p], Implies(ing(p), Or(*[Exists([k], And(ULE(lo, k), ULT(k, V.len), V.get(k) == p), [V.get(k)]) for V, lo in allp])), [ing(p)])))
    for i, (V, lo) in enumerate(allp):
        # the sorted ones are distinct by counting: as many as passes, and every pass is there
        if i:
            out.append(('each once %d' % i, ForAll([a, b], Implies(And(ULE(lo, a), ULT(a, b), ULT(b, V.len)), V.get(a) != V.get(b)), [(V.get(a), V.get(b))])))
        for j, (W, lw) in enumerate(allp[:i]):
            out.append(('each once %d %d' % (i, j), ForAll([a, b], Implies(And(ULE(lo, a), ULT(a, V.len), ULE(lw, b), ULT(b, W.len)), V.get(a) != W.get(b)), [(V.get(a), W.get(b))])))
    return out


def inv0(c):
    """the passes without dependencies come first"""
    E = c.E
    _, (u,) = locs(c)
    s = locs(c)[0].get()
    P = c.entry(c.a(0))
    k = z3.BitVec('k!i', 64)
    rest = VecV(E, P.ety, None, P.len, P.array())
    return core(c, [(u.get(), b64(0)), (rest, c.i)]) + [('what is left depends on something', left(c, u.get(), b64(0))),
                                                       ('sorted ones depend on nothing', ForAll([k], Implies(ULT(k, s.len), deps(E, s.get(k)).len == 0)))]


def left(c, V, lo):
    k = z3.BitVec('k!i', 64)
    return ForAll([k], Implies(And(ULE(lo, k), ULT(k, V.len)), And(deps(c.E, V.get(k)).len != 0, touch(deps(c.E, V.get(k)).get(b64(0))))), [V.get(k)])


def inv1(c):
    _, arr = locs(c)
    u = arr[0].get()
    return core(c, [(u, b64(0))]) + [('what is left depends on something', left(c, u, b64(0)))]


def inv2(c):
    E = c.E
    sref, arr = locs(c)
    s = sref.get()
    cur = c.ghost.ref.get()
    u = [x for x in arr if x is not c.ghost.ref and not (getattr(x, 'id', 0) == getattr(c.ghost.ref, 'id', 1))][0].get()
    added = [x for n, x in c.fr.names.items() if x.ty is not None and x.ty.noref().k == 'bool']
    E.assume_tagged(least(E, u), 'least')
    k, e, m = z3.BitVecs('k!n e!n m!n', 64)
    d = deps(E, u.get(k))
    return core(c, [(u, b64(0)), (cur, c.i)]) + [('what is left depends on something', And(left(c, u, b64(0)), left(c, cur, c.i))),
            ('a round without progress leaves only passes that miss one they depend on', Implies(Not(added[0].get()), And(c.i == u.len, ForAll([k], Implies(ULT(k, u.len), Exists([e], And(ULT(e, d.len), ForAll([m], Implies(ULT(m, s.len), s.get(m) != d.get(e)), [s.get(m)]))), [u.get(k)])))))]


ORD = 'sorted passes follow what they depend on'
BASE = ['graph: bound', 'none is lost']
USES = [('"each once 1 0"', BASE + ['each once 1 0', 'each once 2 0', 'each once 2 1', 'graph: each pass is listed once']),
        ('"each once 1"', BASE + ['each once 1', 'each once 2 1', 'graph: each pass is listed once']),
        ('"each once 2 0"', BASE + ['each once 2 0', 'each once 1 0', 'each once 2', 'graph: each pass is listed once']),
        ('"each once 2 1"', BASE + ['each once 2 1', 'each once 2', 'graph: each pass is listed once']),
        ('"each once 2"', BASE + ['each once 1', 'each once 2', 'graph: each pass is listed once']),
        ('every pass is there', ['every pass is there', 'graph: bound', 'none is lost']),
        ('all are passes', ['all are passes of the graph', 'graph: bound', 'graph: in', 'none is lost']),
        ('none is lost', ['none is lost', 'graph: bound']),
        ('what is left', ['touch', 'what is left depends on something', 'none is lost', 'graph: bound']),
        ('sorted ones depend', ['sorted ones depend on nothing', 'none is lost', 'graph: bound']),
        ('a round without', ['a round without progress leaves only passes that miss one they depend on', 'none is lost', 'graph: bound']),
        ('loop 1 invariant "%s" holds' % ORD, BASE + [ORD, 'sorted ones depend on nothing', 'every pass is there', 'what is left depends on something', 'least', 'graph: dependencies are in the graph', 'graph: pos', 'graph: in', 'graph: there is a pass', 'all are passes of the graph', 'touch']),
        ('sorted passes follow', [BASE + [ORD, 'sorted ones depend on nothing'], [ORD, 'each once 1 0', 'each once 2 0', 'all are passes of the graph', 'none is lost', 'graph: bound', 'graph: unique ids', 'graph: dependencies are in the graph']]),
        ('every pass follows', [ORD]),
        ('assertion', ['what is left depends on something', 'graph: bound', 'none is lost']),
        ('does not throw', ['every pass is there', 'a round without progress leaves only passes that miss one they depend on', 'all are passes of the graph', 'least', 'graph: dependencies are in the graph', 'graph: bound', 'none is lost'])]


def uses(name):
    for k, u in USES:
        if k in name:
            return u
    return None


def sorted_(c):
    E = c.E
    P = c.a(0).get()
    r = c.res()
    a, k = z3.BitVecs('a!r k!r', 64)
    return [('every pass follows what it depends on', ordered(E, r)),
            ('as many as there were', r.len == P.len),
            ('every pass is there', ForAll([a], Implies(ULT(a, P.len), Exists([k], And(ULT(k, r.len), r.get(k) == P.get(a)))))),
            ('nothing else is', ForAll([a], Implies(ULT(a, r.len), Exists([k], And(ULT(k, P.len), P.get(k) == r.get(a))))))]


contract('crg::fgph::sortPasses', ['P05'], ematch=True, uses=uses, setup=setup, ensures=sorted_, trace_ok=True, loops={0: LoopSpec(inv0, allow_events=True), 1: LoopSpec(inv1, allow_events=True), 2: LoopSpec(inv2, allow_events=True)})
contract('crg::FramePass::dependsOn', ['P05'], np=1, modular=False, ensures=lambda c: [('exactly when it was declared', c.res() == (lambda e: Exists([e], And(ULT(e, c.f('passDepends').get().len), pid(c.E, c.f('passDepends').get().get(e)) == c.a(0).field(c.E, 'id').get())))(z3.BitVec('e!do', 64)))])


# ---------------------------------------------------------------- the passes of a group and of the groups below it
under = z3.Function('under', PTR, PTR, z3.BoolSort())


def grp(E, g):
    return E.deref(g, Ty('struct', name='crg::FramePassGroup'))


def is_under(E, g, p, ng=None):
    """p was created in g or in a group below it (its ng first ones)"""
    k, m = z3.BitVecs('k!u m!u', 64)
    G = grp(E, g)
    ps, gs = G.field(E, 'passes').get(), G.field(E, 'groups').get()
    return Or(Exists([k], And(ULT(k, ps.len), S.ptrval(ps.get(k)) == p)), Exists([m], And(ULT(m, gs.len if ng is None else ng), under(S.ptrval(gs.get(m)), p))))


def list_setup(c):
    p = z3.BitVec('p!u', 64)
    c.E.assume(ForAll([p], under(c.this.addr, p) == is_under(c.E, c.this.addr, p)))
    c.E.assume(ULT(c.a(0).get().len, b64(1 << 31)))


def appended(c, old, r, own, ng):
    """old is kept; its own passes come next, in order; and then those of the groups below it"""
    E = c.E
    k, p, m = z3.BitVecs('k!q p!q m!q', 64)
    ps, gs = c.f('passes').get(), c.f('groups').get()
    out = [('what was listed is kept', And(ULE(old.len, r.len), ForAll([k], Implies(ULT(k, old.len), r.get(k) == old.get(k))))),
           ('its own passes come next, in the order of their creation', And(ULE(own, r.len - old.len), ForAll([k], Implies(And(ULE(old.len, k), ULT(k, old.len + own)), r.get(k) == S.ptrval(ps.get(k - old.len))), [r.get(k)])))]
    out.append(('each of its own passes is at its place', ForAll([k], Implies(ULT(k, own), r.get(old.len + k) == S.ptrval(ps.get(k))), [ps.get(k).addr if hasattr(ps.get(k), 'addr') else S.ptrval(ps.get(k))])))
    if ng is not None:
        out.append(('then only passes of the groups below it', ForAll([k], Implies(And(ULE(old.len + own, k), ULT(k, r.len)), Exists([m], And(ULT(m, ng), under(S.ptrval(gs.get(m)), r.get(k))))))))
        out.append(('all of them', ForAll([m, p], Implies(And(ULT(m, ng), under(S.ptrval(gs.get(m)), p)), Exists([k], And(ULE(old.len + own, k), ULT(k, r.len), r.get(k) == p))))))
    return out


def list_inv0(c):
    old, r = c.entry(c.a(0)), c.a(0).get()
    return [('one per pass', r.len == old.len + c.i)] + appended(c, old, r, c.i, None)


def list_inv1(c):
    old, r = c.entry(c.a(0)), c.a(0).get()
    return [('bound', And(ULE(old.len + c.f('passes').get().len, r.len), ULE(r.len, b64(1 << 31))))] + appended(c, old, r, c.f('passes').get().len, c.i)


def list_iter(c, ev):
    gs = c.f('groups').get()
    return [('each group below is listed once', z3.BoolVal(names(ev) == ['listPasses'])), ('in order', ev[0].args['group'] == S.ptrval(gs.get(c.i0)) if ev else FALSE)]


def listed(c):
    E, ev = c.E, c.events()
    old, r = c.old(c.a(0)), c.a(0).get()
    n = c.f('passes').get().len
    g = c.f('groups').get()
    return appended(c, old, r, n, g.len)


def list_call(c):
    old, r = c.old(c.a(0)), c.a(0).get()
    k, p = z3.BitVecs('k!q p!q', 64)
    return [('it grows', And(ULE(old.len, r.len), ULE(r.len, b64(1 << 31)))), ('what was listed stays', ForAll([k], Implies(ULT(k, old.len), r.get(k) == old.get(k)))),
            ('only what is below', ForAll([k], Implies(And(ULE(old.len, k), ULT(k, r.len)), under(c.this.addr, r.get(k))))),
            ('all that is below', ForAll([p], Implies(under(c.this.addr, p), Exists([k], And(ULE(old.len, k), ULT(k, r.len), r.get(k) == p)))))]


contract('crg::FramePassGroup::listPasses', ['P05'], setup=list_setup, recursive=True, ensures=listed, call_ensures=list_call, havoc=lambda c: c.a(0).set(c.E.fresh(c.a(0).ty, 'listed')), trace_ok=True,
         uses=lambda n: ['bound', 'what was listed is kept', 'its own passes come next, in the order of their creation', 'each of its own passes is at its place', 'one per pass'] if 'its own passes' in n else None,
         emits=lambda c: ghost_ev(c, 'listPasses', group=c.this.addr),
         loops={0: LoopSpec(list_inv0), 1: LoopSpec(list_inv1, iter=list_iter, label='groups')})


# ---------------------------------------------------------------- a runnable graph makes its passes runnable in order
def made(c):
    e = [x for x in c.events() if x.name == 'call:runnableCreator']
    return [('the pass is made runnable by its own creator, once', And(z3.BoolVal(len(e) == 1), c.E.eq_val(e[0].args['fn'], c.old(c.f('runnableCreator')))) if e else FALSE),
            ('for this pass, context and graph', z3.BoolVal(len(e) == 1 and ident(e[0].args['a0']) is not None and ident(e[0].args['a0']).eq(c.this.addr) and ident(e[0].args['a1']).eq(ident(c.a(0))) and ident(e[0].args['a2']).eq(ident(c.a(1)))))]


def made_havoc(c):
    S.caches_havoc(c)
    for f in ('delQueue', 'm_allocated'):
        set_fresh(c, c.a(0).field(c.E, f))


contract('crg::FramePass::createRunnable', ['P05'], modular=False, trace_ok=True, may_throw=lambda c: TRUE, ensures=made, call_ensures=lambda c: [],
         havoc=made_havoc, emits=lambda c: ghost_ev(c, 'createRunnable', this=c.this.addr, graph=ident(c.a(1))))


def ctor_setup(c):
    # kinds(c) on the nodes handed over
    N = c.av(2)
    q = z3.BitVec('k!kd', 64)
    c.E.assume(ForAll([q], Implies(ULT(q, N.len), c.E.deref(S.ptrval(N.get(q)), Ty('struct', name='crg::GraphNode')).field(c.E, 'kind').get() == z3.BitVecVal(2, 32))))
    """the images of the graph exist"""
    E = c.E
    m = c.a(0).field(E, 'm_images').get()
    k = z3.Const('k!im', m.dom.sort().domain())
    E.assume(ForAll([k], Implies(z3.Select(m.dom, k), img_ok(E, m.keyval(k)))))
    w = c.a(0).field(E, 'm_imageViews').get()
    from .handlers import view_data
    E.assume(ForAll([k], Implies(z3.Select(w.dom, k), And(w.keyval(k).get('data') != 0, img_ok(E, view_data(E, w.keyval(k)).field(E, 'image').get())))))
    ctx = c.a(4)
    for n in ('vkCreateQueryPool', 'vkCreateCommandPool', 'vkCreateFence', 'vkCreateSemaphore', 'vkAllocateCommandBuffers'):
        E.assume(ctx.field(E, n).get() != 0)


def ctor_inv(c):
    return [('one per node', c.f('m_passes').get().len == c.i)] + kinds(c)


def kinds(c):
    """the nodes of a compiled graph are passes"""
    E = c.E
    N = c.f('m_nodes').get()
    k = z3.BitVec('k!kd', 64)
    return [('the nodes are passes', ForAll([k], Implies(ULT(k, N.len), E.deref(S.ptrval(N.get(k)), Ty('struct', name='crg::GraphNode')).field(E, 'kind').get() == z3.BitVecVal(2, 32))))]


def ctor_iter(c, ev):
    E = c.E
    N, P = c.f('m_nodes').get(), c.f('m_passes').get()
    e = [x for x in ev if x.name == 'call:runnableCreator']
    if len(e) != 1:
        return [('each pass is made runnable once', FALSE)]
    node = E.deref(S.ptrval(N.get(c.i0)), Ty('struct', name='crg::FramePassNode'))
    return [('each pass is made runnable, in the order of the nodes', And(*[ident(e[0].args['a0']) == node.field(E, 'pass').get()])),
            ('and kept in that order', And(P.len == c.i0 + 1, S.ptrval(P.get(c.i0)) == S.ptrval(e[0].ret))),
            ('earlier ones stay', earlier(c, P))]


def earlier(c, P):
    k = z3.BitVec('k!ea', 64)
    B = c.b(c.f('m_passes'))
    return ForAll([k], Implies(ULT(k, B.len), S.ptrval(P.get(k)) == S.ptrval(B.get(k))))


def init_inv(c):
    for n, g in S.rg_req(c):
        c.E.assume(g)       # what the creators return: passes that exist, whose current index designates one of their contexts
    return [('as many passes as nodes', c.f('m_passes').get().len == c.f('m_nodes').get().len)]


def init_iter(c, ev):
    E = c.E
    p = c.f('m_passes').get().get(c.i0)
    n = names(ev)
    if not ev:
        return [('an enabled pass is initialised', Not(S.enabled(E, p)))]
    if n != ['call:initialise']:
        return [('a pass is initialised once', FALSE)]
    fn = HeapObj(E, 'crg::RunnablePass', p).field(E, 'm_callbacks').get().get('initialise')
    return [('a pass that is disabled is not initialised', S.enabled(E, p)), ('by its own callback, for its current index', And(E.eq_val(ev[0].args['fn'], fn), E.eq_val(ev[0].args['a0'], S.pass_index(E, p))))]


def ctor_end(c):
    return [('as many passes as nodes', c.f('m_passes').get().len == c.f('m_nodes').get().len), ('of the nodes that were given', c.E.eq_val(c.f('m_nodes').get(), c.av(2)))]


def made_iter(event, arg):
    def f(c, ev):
        e = [x for x in ev if x.name == event]
        if len(e) != 1 or len(ev) != 1:
            return [('each is made, once', FALSE)]
        return [('each of those of the graph is made', e[0].args[arg].get('id') == c.ghost.cur())]
    return f


contract('crg::RunnableGraph::RunnableGraph', ['P05', 'P12'], modular=False, may_throw=lambda c: TRUE, setup=ctor_setup, ensures=ctor_end, trace_ok=True,
         loops={0: LoopSpec(lambda c: [], iter=made_iter('createImage', 'image'), label='images'), 1: LoopSpec(lambda c: [], iter=made_iter('createImageView', 'view'), label='views'), 2: LoopSpec(ctor_inv, iter=ctor_iter, label='nodes'), 3: LoopSpec(init_inv, iter=init_iter, label='made')})
