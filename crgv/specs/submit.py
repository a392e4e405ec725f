"""Fences, semaphores, submission, re-recording (P18, P22) and timers (P20)."""
from .common import *
from .layout import *
from ..interp import CLASS_INV

MAXT = 0xFFFFFFFFFFFFFFFF
F = 'crg::Fence::'


def ctxobj(c, p):
    """the GraphContext behind a pointer or reference value"""
    return c.E.deref(p, Ty('struct', name='crg::GraphContext')) if not isinstance(p, Ref) else p


def fn_ptr(g, E, name):
    return g.field(E, name).get()


def old_f(c, obj, name):
    return c.old(obj.field(c.E, name))


def dev_events(c):
    return [e for e in c.events() if e.name.startswith('vk')]


def names(ev):
    return [e.name for e in ev]


def ptrval(p):
    """what the caller passed by address (first element of an array)"""
    if isinstance(p, tuple):
        return p[1] if p[0] == 'ptr' else p[1].get(p[2])
    return p


def is_seq(c, *want):
    """exactly these device commands, in this order"""
    ev = dev_events(c)
    return z3.BoolVal(names(ev) == list(want)), ev


# bookkeeping of object names for debuggers: no effect on the device, the graph or the resources
def only_names(c):
    return [('nothing but naming the object', z3.BoolVal(all(e.name in ('vkDebugMarkerSetObjectNameEXT', 'vkSetDebugUtilsObjectNameEXT') or e.name.startswith('call:') for e in c.events())))]


for f in ('doRegisterObject', 'doUnregisterObject'):
    contract('crg::GraphContext::' + f, ['P18', 'P22'], havoc=lambda c: c.f('m_allocated').set(c.E.fresh(c.f('m_allocated').ty, 'allocated')), ensures=only_names, call_ensures=lambda c: [], trace_ok=True)


# labels for debuggers: no effect on the device, the graph or the resources
def only_labels(c):
    return [('nothing but a label', z3.BoolVal(all(e.name in ('vkCmdDebugMarkerBeginEXT', 'vkCmdDebugMarkerEndEXT', 'vkCmdBeginDebugUtilsLabelEXT', 'vkCmdEndDebugUtilsLabelEXT') for e in c.events())))]


for f in ('vkCmdBeginDebugBlock', 'vkCmdEndDebugBlock'):
    contract('crg::GraphContext::' + f, ['P21', 'P22'], ensures=only_labels, call_ensures=lambda c: [], trace_ok=True)


# a failed Vulkan call is reported by an exception
for o in ('char', 'string'):
    contract('crg::checkVkResult', ['P18', 'P20', 'P22'], np=2, sub=o, key='crg::checkVkResult(%s)' % o, throws_when=lambda c: c.av(0) != 0)


# ------------------------------------------------------------------------- fences
def gctx(c):
    return c.E.deref(c.old(c.f('m_context')), Ty('struct', name='crg::GraphContext'))


def fence_wait(c):
    E, ev = c.E, dev_events(c)
    f = c.old(c.f('m_fence'))
    out = [('the fence itself does not change', c.f('m_fence').get() == f)]
    if not ev:
        return out + [('a fence that exists is waited for', f == 0), ('success', c.res() == 0), ('counts as waited', c.f('m_fenceWaited').get())]
    out.append(('one wait is issued', z3.BoolVal(names(ev) == ['vkWaitForFences'])))
    if names(ev) != ['vkWaitForFences']:
        return out
    a = ev[0].args
    return out + [('only a fence that exists is waited for', f != 0),
                  ('on its device', a['device'] == old_f(c, gctx(c), 'device')),
                  ('exactly this fence', And(a['fenceCount'] == 1, ptrval(a['pFences']) == f)),
                  ('for the time given', a['timeout'] == c.av(0)),
                  ('the outcome is returned', c.res() == ev[0].ret),
                  ('it counts as waited only when the wait succeeded', c.f('m_fenceWaited').get() == (ev[0].ret == 0))]


contract(F + 'wait', ['P22'], requires=lambda c: [], ensures=fence_wait, havoc=lambda c: c.f('m_fenceWaited').set(c.E.fresh(c.f('m_fenceWaited').ty, 'waited')),
         trace_ok=True, modular=False)


def fence_reset(c):
    E, ev = c.E, dev_events(c)
    f, w = c.old(c.f('m_fence')), c.old(c.f('m_fenceWaited'))
    out = [('the fence itself does not change', c.f('m_fence').get() == f), ('a reset fence has to be waited for again', Not(c.f('m_fenceWaited').get()))]
    ok = names(ev) in ([], ['vkResetFences'], ['vkWaitForFences', 'vkResetFences'])
    out.append(('nothing but a wait and a reset', z3.BoolVal(ok)))
    if not ok:
        return out
    if not ev:
        return out + [('a fence that exists is reset', f == 0)]
    if len(ev) == 1:
        out.append(('it is reset without waiting only if a wait already succeeded', w))
    else:
        a = ev[0].args
        out.append(('the wait is on this fence, without time limit', And(a['fenceCount'] == 1, ptrval(a['pFences']) == f, a['timeout'] == b64(MAXT))))
    a = ev[-1].args
    return out + [('only a fence that exists is reset', f != 0), ('exactly this fence is reset', And(a['fenceCount'] == 1, ptrval(a['pFences']) == f, a['device'] == old_f(c, gctx(c), 'device')))]


contract(F + 'reset', ['P22'], ensures=fence_reset, trace_ok=True, modular=False)


def fence_move(c):
    o = c.a(0)
    E = c.E
    g = lambda n: c.old(o.field(E, n))
    return [('takes over the fence', And(c.f('m_fence').get() == g('m_fence'), c.f('m_context').get() == g('m_context'), c.f('m_fenceWaited').get() == g('m_fenceWaited'))),
            ('the source no longer owns it', o.field(E, 'm_fence').get() == 0)]


contract(F + 'Fence', ['P22'], np=1, key=F + 'Fence(move)', ensures=fence_move, requires=lambda c: [('not moved onto itself', c.a(0).addr != c.this.addr)], modular=False)


def fence_new(c):
    E, ev = c.E, dev_events(c)
    g = c.a(0)
    out = [('not waited for yet', Not(c.f('m_fenceWaited').get()))]
    if not ev:
        return out + [('a fence is created when the device can', fn_ptr(g, E, 'vkCreateFence') == 0), ('no fence', c.f('m_fence').get() == 0)]
    out.append(('one fence is created', z3.BoolVal(names(ev) == ['vkCreateFence'])))
    if names(ev) == ['vkCreateFence']:
        a = ev[0].args
        out += [('as asked', And(E.eq_val(a['pCreateInfo'], c.av(2)), a['device'] == c.old(g.field(E, 'device')))),
                ('it is the one kept', c.f('m_fence').get() == a['pFence'])]
    return out


contract(F + 'Fence', ['P22'], np=3, key=F + 'Fence(new)', ensures=fence_new, modular=False, trace_ok=True,
         may_throw=lambda c: z3.BoolVal(names(dev_events(c)) == ['vkCreateFence']) if dev_events(c) else z3.BoolVal(False),
         post_throw=lambda c: [('only when the creation failed', dev_events(c)[0].ret != 0)])


def fence_dtor(c):
    E, ev = c.E, dev_events(c)
    f, p = c.old(c.f('m_fence')), c.old(c.f('m_context'))
    if not ev:
        return [('an owned fence is destroyed', Or(f == 0, p == 0, old_f(c, gctx(c), 'vkDestroyFence') == 0))]
    out = [('one fence is destroyed', z3.BoolVal(names(ev) == ['vkDestroyFence']))]
    if names(ev) == ['vkDestroyFence']:
        out += [('the one it owns', And(ev[0].args['fence'] == f, ev[0].args['device'] == old_f(c, gctx(c), 'device'), f != 0))]
    return out


contract(F + '~Fence', ['P22'], ensures=fence_dtor, modular=False, trace_ok=True)


# ------------------------------------------------------------------------- semaphores
def conv_inv(c):
    """after the first i waits"""
    E = c.E
    W, S, M = c.av(0), c.a(1).get(), c.a(2).get()
    S0, M0 = c.entry(c.a(1)), c.entry(c.a(2))
    return converted(E, W, S, M, c.i, S0, M0)


def converted(E, W, S, M, n, S0, M0):
    j, k, q = z3.BitVecs('j!w k!w q!w', 64)
    w = W.get(k)
    return [('one stage mask per semaphore', S.len == M.len),
            ('what was there stays', And(ULE(S0.len, S.len), ForAll([j], Implies(ULT(j, S0.len), S.get(j) == S0.get(j))))),
            ('every semaphore given is waited for, at the stages it was given for',
             ForAll([k], Implies(And(ULT(k, n), w.get('semaphore') != 0), Exists([q], And(ULT(q, S.len), S.get(q) == w.get('semaphore'), M.get(q) & w.get('dstStageMask') == w.get('dstStageMask')))))),
            ('nothing else is waited for', ForAll([j], Implies(And(ULE(S0.len, j), ULT(j, S.len)), And(S.get(j) != 0, Exists([k], And(ULT(k, n), S.get(j) == w.get('semaphore')))))))]


contract('crg::convert', ['P18'], np=3, ensures=lambda c: converted(c.E, c.av(0), c.a(1).get(), c.a(2).get(), c.av(0).len, c.old(c.a(1)), c.old(c.a(2))),
         requires=lambda c: [('one stage mask per semaphore', c.av(1).len == c.av(2).len), ('sizes', And(ULT(c.av(1).len, b64(1 << 32)), ULT(c.av(0).len, b64(1 << 32))))],
         havoc=lambda c: [c.a(i).set(c.E.fresh(c.a(i).ty, 'conv')) for i in (1, 2)],
         loops={0: LoopSpec(lambda c: conv_inv(c) + [('bound', ULE(c.a(1).get().len, c.entry(c.a(1)).len + c.i))])})


# ------------------------------------------------------------------------- submission
def clear_havoc(c):
    E = c.E
    c.this.field(E, 'm_toDelete').set(E.fresh(c.this.field(E, 'm_toDelete').ty, 'queue'))
    for n in ('delQueue', 'm_allocated'):
        r = c.a(0).field(E, n)
        r.set(E.fresh(r.ty.noref(), 'ctx'))


contract('crg::DeletionQueue::clear', ['P18', 'P22'], trace_ok=True, havoc=clear_havoc, emits=lambda c: ghost_ev(c, 'loop:deletions'),
         loops={0: LoopSpec(lambda c: [], iter=lambda c, ev: one_deletion(c, ev), label='deletions')})


def one_deletion(c, ev):
    q = c.entry(c.this.field(c.E, 'm_toDelete'))
    ok = len(ev) == 1 and ev[0].name.startswith('call:')
    return [('one deferred deletion runs', z3.BoolVal(ok))] + ([('the one queued, on the device it was queued for', And(ev[0].args['fn'] == q.get(c.i0), ev[0].args['a0'].addr == c.a(0).addr))] if ok else [])



def obj(c, ref, name, cls):
    """the object a reference member of ref designates"""
    return c.E.deref(ref.field(c.E, name).get(), Ty('struct', name=cls))


def rp_inv(c):
    """every runnable pass has one record context per pass index"""
    P, X = c.f('m_passes').get(), c.f('m_passContexts').get()
    return [('as many contexts as passes', P.len == X.len), ('pass count', ULT(P.len, b64(1 << 32)))]


def in_range(c, i):
    return ULT(z64(i), c.f('m_passes').get().len)


def enabled(E, p):
    """whether the pass at address p is enabled: the value of its callback"""
    cb = HeapObj(E, 'crg::RunnablePass', p).field(E, 'm_callbacks').get().get('isEnabled').get('m_callback')
    return z3.Function('cb!Bool', cb.sort(), z3.BoolSort())(cb)


def pass_index(E, p):
    cb = HeapObj(E, 'crg::RunnablePass', p).field(E, 'm_callbacks').get().get('getPassIndex').get('m_callback')
    return z3.Function('cb!bv', cb.sort(), B32)(cb)


def set_fresh(c, ref, *skip):
    c.E.writes is not None and None
    ref.set(c.E.fresh(ref.ty.noref(), 'hv'))


def context_havoc(c, ctx):
    for n, t, _ in c.E.T.fields('crg::RecordContext'):
        if n not in ('m_handler', 'm_resources'):
            set_fresh(c, ctx.field(c.E, n))
    c.E.assume(CLASS_INV['crg::RecordContext'](c.E, ctx))


def registered(E, ctx):
    """implicit transitions are registered by passes that exist"""
    T = ctx.field(E, 'm_implicitTransitions').get()
    j = z3.BitVec('j!ro', 64)
    return ForAll([j], Implies(ULT(j, T.len), T.get(j).get('pass') != 0))


CLASS_INV['crg::RecordContext'] = registered


def same_buffers(c):
    """recording does not touch the command buffers, fences and semaphores of the pass"""
    P, P0 = c.f('m_passes').get(), c.old(c.f('m_passes'))
    j = z3.BitVec('j!sb', 64)
    a, b = P.get(j), P0.get(j)
    g = [c.E.eq_val(a.get(n), b.get(n)) for n in ('commandBuffer', 'semaphore', 'fence')]
    return [('as many passes', P.len == P0.len), ('the command buffers and fences of the pass stay', ForAll([j], Implies(ULT(j, P.len), And(*g)))),
            ('as many contexts', c.f('m_passContexts').get().len == c.old(c.f('m_passContexts')).len)]


def caches_havoc(c):
    """images may be created on the way"""
    for cls in ('crg::ContextResourcesCache', 'crg::ResourceHandler'):
        heap_havoc(c, cls, 'm_images', 'm_imageViews')
    heap_havoc(c, 'crg::RunnableGraph', 'm_resources')


def rec_havoc(c):
    caches_havoc(c)
    context_havoc(c, c.a(2))
    for n in ('m_passes', 'm_passContexts', 'm_timer'):
        set_fresh(c, c.f(n))


def ident(r):
    """which object a reference designates"""
    return r.addr if isinstance(r, HeapObj) else getattr(r, 'id', None)


def ghost_ret(c, name, ret, **args):
    c.E.S.trace.append(Event(name, args, ret))


def ghost_ev(c, name, **args):
    c.E.S.trace.append(Event(name, args, None))


contract('crg::GraphContext::getNextRainbowColour', ['P22'], call_ensures=lambda c: [], ensures=lambda c: [('no device command', z3.BoolVal(not c.events()))])
def find(ev, name):
    return [i for i, e in enumerate(ev) if e.name == name]


def begin_end(c, ev, cb, cmds):
    """the commands are recorded between the begin and the end of cb, once no submission of cb is pending"""
    b, e = find(ev, 'vkBeginCommandBuffer'), find(ev, 'vkEndCommandBuffer')
    out = [('begun and ended once', z3.BoolVal(len(b) == 1 and len(e) == 1))]
    if len(b) == 1 and len(e) == 1:
        b, e = b[0], e[0]
        out += [('begun and ended are the same command buffer', And(ev[b].args['commandBuffer'] == cb, ev[e].args['commandBuffer'] == cb)),
                ('all is recorded between begin and end', z3.BoolVal(all(b < i < e for i in cmds)))]
    return out


def waited(c, ev, fence, device, before):
    """an unlimited wait for the fence, unless there is none, precedes event number `before`"""
    w = [i for i in find(ev, 'vkWaitForFences') if i < before]
    if not w:
        return [('the fence is waited for first', fence == 0)]
    a = ev[w[0]].args
    return [('the wait is on the fence, without time limit', And(a['fenceCount'] == 1, ptrval(a['pFences']) == fence, a['timeout'] == b64(MAXT), a['device'] == device))]


def record_one(c):
    E, ev = c.E, c.events()
    cb = c.a(0).get().get('commandBuffer')
    r = find(ev, 'recordInto')
    out = [('recorded once', z3.BoolVal(len(r) == 1))] + begin_end(c, ev, cb, r)
    if len(r) == 1:
        out += [('into the command buffer, for the index', And(ev[r[0]].args['cmd'] == cb, ev[r[0]].args['index'] == c.av(1)))]
    fence = c.old(c.f('m_passes')).get(z64(c.av(1))).get('fence')
    g = E.deref(fence.get('m_context'), Ty('struct', name='crg::GraphContext'))
    b = find(ev, 'vkBeginCommandBuffer')
    out += waited(c, ev, fence.get('m_fence'), c.old(g.field(E, 'device')), b[0] if b else 0)
    out += [('an existing command buffer is reused', Implies(c.old(c.a(0)).get('commandBuffer') != 0, cb == c.old(c.a(0)).get('commandBuffer')))]
    return out


contract('crg::RunnablePass::recordOne', ['P22'], requires=lambda c: rp_inv(c) + [('the pass index exists', in_range(c, c.av(1)))],
         ensures=record_one, trace_ok=True, modular=False, may_throw=lambda c: TRUE)


def re_record(c):
    E, ev = c.E, c.events()
    r = find(ev, 'recordInto')
    out = [('the index of the pass is returned', c.res() == If(enabled(E, c.this.addr), pass_index(E, c.this.addr), b32(0xFFFFFFFF)))]
    idx = pass_index(E, c.this.addr)
    P0 = c.old(c.f('m_passes')).get(z64(idx))
    if not r:
        return out + [('recorded', Not(in_range(c, idx)))]
    b = find(ev, 'vkBeginCommandBuffer')
    g = E.deref(P0.get('fence').get('m_context'), Ty('struct', name='crg::GraphContext'))
    out += waited(c, ev, P0.get('fence').get('m_fence'), c.old(g.field(E, 'device')), b[0] if b else 0)
    out += [('for the index of the pass', And(ev[r[0]].args['index'] == idx, z3.BoolVal(len(r) == 1)))]
    return out


contract('crg::RunnablePass::reRecordCurrent', ['P22'], requires=lambda c: rp_inv(c) + [('resettable', c.f('m_ruConfig').get().get('resettable'))],
         ensures=re_record, trace_ok=True, modular=False, may_throw=lambda c: TRUE)


def rci(c):
    E, ev = c.E, c.events()
    r = find(ev, 'recordInto')
    out = [('recorded once, nothing else', z3.BoolVal(names(ev) == ['recordInto'])),
           ('the index of the pass is returned', c.res() == If(enabled(E, c.this.addr), pass_index(E, c.this.addr), b32(0xFFFFFFFF)))]
    if len(r) == 1:
        a = ev[r[0]].args
        out += [('into the command buffer given, for the index of the pass', And(a['cmd'] == c.av(1), a['index'] == pass_index(E, c.this.addr), a['this'] == c.this.addr, a['context'] == c.a(0).addr))]
    return out


contract('crg::RunnablePass::recordCurrentInto', ['P22'], requires=lambda c: rp_inv(c) + [('the pass index exists', in_range(c, pass_index(c.E, c.this.addr)))],
         ensures=rci, may_throw=lambda c: TRUE, call_ensures=lambda c: same_buffers(c) + [('index', c.res() == If(enabled(c.E, c.this.addr), pass_index(c.E, c.this.addr), b32(0xFFFFFFFF)))],
         havoc=lambda c: (caches_havoc(c), context_havoc(c, c.a(0)), [set_fresh(c, c.f(n)) for n in ('m_passes', 'm_passContexts', 'm_timer')]),
         trace_ok=True, emits=lambda c: ghost_ev(c, 'recordInto', this=c.this.addr, cmd=c.av(1), index=pass_index(c.E, c.this.addr), context=ident(c.a(0))))


def reset_cb(c):
    E, ev = c.E, c.events()
    P0 = c.old(c.f('m_passes')).get(z64(c.av(0)))
    cb = P0.get('commandBuffer').get('commandBuffer')
    g = E.deref(c.old(c.f('m_context')), Ty('struct', name='crg::GraphContext'))
    r = find(ev, 'vkResetCommandBuffer')
    if not r:
        return [('a command buffer that exists is reset', Or(cb == 0, c.old(g.field(E, 'device')) == 0))]
    f = P0.get('fence')
    gf = E.deref(f.get('m_context'), Ty('struct', name='crg::GraphContext'))
    return [('one reset, of the command buffer of the index', And(z3.BoolVal(len(r) == 1), ev[r[0]].args['commandBuffer'] == cb)),
            ('it has to be recorded again', Not(c.f('m_passes').get().get(z64(c.av(0))).get('commandBuffer').get('recorded')))] + waited(c, ev, f.get('m_fence'), c.old(gf.field(E, 'device')), r[0])


contract('crg::RunnablePass::resetCommandBuffer', ['P22'], requires=lambda c: rp_inv(c) + [('the pass index exists', in_range(c, c.av(0)))], ensures=reset_cb, trace_ok=True, modular=False)
contract('crg::RunnablePass::notifyPassRender', ['P18', 'P20'], havoc=lambda c: set_fresh(c, c.f('m_timer')))


# ------------------------------------------------------------------------- the graph
def enabled_in(c, vec, j):
    return enabled(c.E, vec.get(j))


def same_seq(c):
    """both iterators go over the same passes"""
    a, b = c.a(1).get(), c.a(2).get()
    c.a(2).set(IterV(a.vec, b.idx))


def next_state(c):
    E = c.E
    a, e = c.av(1), c.av(2)
    v = a.vec.get()
    j, i = z3.BitVecs('j!ns i!ns', 64)
    off = lambda x: And(ULE(a.idx, x), ULT(x, e.idx))
    st = lambda x: HeapObj(E, 'crg::RunnablePass', v.get(x)).field(E, 'm_pipelineState').get()
    return [('the current state when no enabled pass is left', Implies(ForAll([j], Implies(off(j), Not(enabled(E, v.get(j))))), E.eq_val(c.res(), c.av(0)))),
            ('the state of the next enabled pass', ForAll([j], Implies(And(off(j), enabled(E, v.get(j)), ForAll([i], Implies(And(ULE(a.idx, i), ULT(i, j)), Not(enabled(E, v.get(i)))))), E.eq_val(c.res(), st(j)))))]


def ns_inv(c):
    E = c.E
    a0, a, e = c.old(c.a(1)), c.a(1).get(), c.av(2)
    v = a.vec.get()
    j = z3.BitVec('j!nsi', 64)
    return [('in range', And(ULE(a0.idx, a.idx), ULE(a.idx, e.idx))), ('all passes so far are disabled', ForAll([j], Implies(And(ULE(a0.idx, j), ULT(j, a.idx)), Not(enabled(E, v.get(j))))))]


def seq_req(c):
    a, e = c.av(1), c.av(2)
    j = z3.BitVec('j!sr', 64)
    v = a.vec.get()
    return [('a range', And(ULE(a.idx, e.idx), e.idx == v.len)), ('passes exist', ForAll([j], Implies(ULT(j, v.len), v.get(j) != 0)))]


contract('crg::rungrf::getNextState', ['P24'], setup=same_seq, requires=seq_req, ensures=next_state, loops={0: LoopSpec(ns_inv)})
contract('crg::rungrf::gatherNextImageLayouts', ['P24'], setup=same_seq, requires=seq_req, trace_ok=True, assumed=True)


def union(c, M, M0, D, seen):
    """M is M0 plus the seen entries of D whose keys M0 does not have"""
    k = z3.BitVec('k!un', 64)
    E = c.E
    return [('known buffers keep their state, the others get theirs', ForAll([k], And(M.has(k) == Or(M0.has(k), And(D.has(k), seen(k))), Implies(M0.has(k), E.eq_val(M.at(k), M0.at(k))),
                                                                                      Implies(And(Not(M0.has(k)), D.has(k), seen(k)), E.eq_val(M.at(k), D.at(k))))))]


def add_inv(c):
    E = c.E
    return union(c, c.f('m_buffers').get(), c.entry(c.f('m_buffers')), c.entry(c.a(0).field(E, 'm_buffers')), lambda k: z3.Select(c.visited, k))


def addst_havoc(c):
    for n in ('m_images', 'm_buffers', 'm_prevPipelineState'):
        set_fresh(c, c.f(n))


def add_states(c):
    E = c.E
    o = lambda n: c.old(c.a(0).field(E, n))
    pp, dp = c.old(c.f('m_prevPipelineState')), o('m_currPipelineState')
    return union(c, c.f('m_buffers').get(), c.old(c.f('m_buffers')), o('m_buffers'), lambda k: TRUE) + \
        [('the previous state is the one with most accesses', And(*[c.f('m_prevPipelineState').get().get(n) == If(ULT(pp.get('access'), dp.get('access')), dp.get(n), pp.get(n)) for n in ('access', 'pipelineStage')]))]


contract('crg::RecordContext::addStates', ['P24'], havoc=addst_havoc, ensures=add_states, requires=lambda c: [('not added to itself', c.a(0).addr != c.this.addr if isinstance(c.a(0), HeapObj) and isinstance(c.this, HeapObj) else TRUE)], loops={0: LoopSpec(add_inv)})


def rg_req(c):
    """what construction establishes: passes exist, each with its contexts, and getPassIndex() designates one of them"""
    E = c.E
    P = c.f('m_passes').get()
    j = z3.BitVec('j!rg', 64)
    p = HeapObj(E, 'crg::RunnablePass', P.get(j))
    n = p.field(E, 'm_passes').get().len
    return [('pass count', ULT(P.len, b64(1 << 32))), ('every pass exists', ForAll([j], Implies(ULT(j, P.len), And(P.get(j) != 0, n == p.field(E, 'm_passContexts').get().len, ULT(n, b64(1 << 32)), ULT(z64(pass_index(E, P.get(j))), n)))))]


def seq_iters(c, elem):
    """locals that are iterators into a sequence of such elements, in declaration order"""
    out = []
    for n, r in c.fr.names.items():
        try:
            v = r.get()
        except KeyError:
            continue
        if isinstance(v, IterV) and elem(v.vec.get().ety):
            out.append(r)
    return out


def is_pass(t):
    return t.k == 'ptr'


def rec_inv(c):
    E = c.E
    P = c.f('m_passes').get()
    cur, nxt = [r.get() for r in seq_iters(c, is_pass)[:2]]
    it = seq_iters(c, lambda t: t.k == 'int')[0].get()
    return [('position', And(ULE(cur.idx, P.len), it.idx == cur.idx, nxt.idx == If(cur.idx == P.len, P.len, cur.idx + 1), it.vec.get().len == P.len)), ('bound', ULT(P.len, b64(1 << 32)))] + rg_req(c)


def rec_iter(c, ev):
    E = c.E
    P = c.f('m_passes').get()
    cur = c.b(seq_iters(c, is_pass)[0])
    out = [('one pass is recorded', z3.BoolVal(names(ev) == ['recordInto']))]
    if names(ev) == ['recordInto']:
        a = ev[0].args
        out.append(('the passes are recorded in order, into the command buffer of the graph, for their current index', And(a['this'] == P.get(cur.idx), a['cmd'] == c.f('m_commandBuffer').get(), a['index'] == pass_index(E, P.get(cur.idx)))))
    return out


def graph_record(c):
    E, ev = c.E, c.events()
    cb = c.old(c.f('m_commandBuffer'))
    P = c.old(c.f('m_passes'))
    if not ev:
        return [('a graph with passes is recorded', P.len == 0)]
    lp = find(ev, 'loop:passes') + find(ev, 'recordInto')
    r = find(ev, 'vkResetCommandBuffer')
    out = [('the passes are recorded once', z3.BoolVal(len(find(ev, 'loop:passes')) <= 1 and len(r) == 1))] + begin_end(c, ev, cb, lp)
    f = c.old(c.f('m_fence'))
    g = E.deref(f.get('m_context'), Ty('struct', name='crg::GraphContext'))
    b = find(ev, 'vkBeginCommandBuffer')
    out += waited(c, ev, f.get('m_fence'), c.old(g.field(E, 'device')), min(r + b) if r + b else 0)
    out += [('the reset is of this command buffer', And(*[ev[i].args['commandBuffer'] == cb for i in r])),
            ('the command buffer, fence and semaphore of the graph stay', And(c.f('m_commandBuffer').get() == cb, c.f('m_fence').get().get('m_fence') == f.get('m_fence'), c.f('m_semaphore').get() == c.old(c.f('m_semaphore'))))]
    return out


def heap_havoc(c, cls, *fields):
    """the field may change in every object of the class"""
    E = c.E
    for n in fields:
        a = E.heap_array(cls, n, E.T.field_ty(cls, n))
        E.S.heap[(cls, n)] = E.fresh_term(a.sort(), 'H_' + n)
        E.note_write(('heap', cls, n, None))


def record_havoc(c):
    E = c.E
    caches_havoc(c)
    for n in ('m_states', 'm_timer'):
        set_fresh(c, c.f(n))
    w = c.f('m_fence').field(E, 'm_fenceWaited')
    w.set(E.fresh(w.ty.noref(), 'waited'))
    heap_havoc(c, 'crg::RunnablePass', 'm_passes', 'm_passContexts', 'm_timer')
    set_fresh(c, obj(c, c.this, 'm_graph', 'crg::FrameGraph').field(E, 'm_finalState'))


contract('crg::RunnableGraph::record', ['P18', 'P22'], requires=rg_req, may_throw=lambda c: TRUE, ensures=lambda c: graph_record(c) + rg_req(c), trace_ok=True,
         call_ensures=rg_req, havoc=record_havoc, emits=lambda c: ghost_ev(c, 'record'),
         loops={0: LoopSpec(lambda c: []), 1: LoopSpec(rec_inv, iter=rec_iter, label='passes')})


# ------------------------------------------------------------------------- submitting
def nfield(st, n):
    """fence members of a fence seen as a value"""
    return st.get(n)


def elem_at(E, p, i):
    """i-th element behind a pointer to the start of a sequence"""
    return p.vec.get().get(simp(p.idx + i)) if isinstance(p, PtrElem) else None


def run_waits(c):
    E, ev = c.E, c.events()
    G = obj(c, c.this, 'm_graph', 'crg::FrameGraph')
    s = find(ev, 'vkQueueSubmit')
    out = [('submitted once', z3.BoolVal(len(s) == 1))]
    if len(s) != 1:
        return out
    s = s[0]
    a = ev[s].args
    info = ptrval(a['pSubmits'])
    W = c.av(0)
    fence0 = c.old(c.f('m_fence'))
    gf = E.deref(fence0.get('m_context'), Ty('struct', name='crg::GraphContext'))
    pw, pm = info.get('pWaitSemaphores'), info.get('pWaitDstStageMask')
    nw = info.get('waitSemaphoreCount')
    out += [('to the queue given, with the fence of the graph', And(a['queue'] == c.av(1), a['submitCount'] == 1, a['fence'] == fence0.get('m_fence'))),
            ('the command buffer of the graph', And(info.get('commandBufferCount') == 1, ptr_get(info.get('pCommandBuffers')) == c.old(c.f('m_commandBuffer')))),
            ('it signals the semaphore of the graph', And(info.get('signalSemaphoreCount') == 1, ptr_get(info.get('pSignalSemaphores')) == c.old(c.f('m_semaphore'))))]
    sw, sm = pw.vec.get(), pm.vec.get()
    k, q = z3.BitVecs('k!rw q!rw', 64)
    w = W.get(k)
    out += [('what is waited for is counted', And(pw.idx == 0, pm.idx == 0, z64(nw) == sw.len, z64(nw) == sm.len)),
            ('every semaphore given is waited for, at its stages', ForAll([k], Implies(And(ULT(k, W.len), w.get('semaphore') != 0), Exists([q], And(ULT(q, sw.len), sw.get(q) == w.get('semaphore'), sm.get(q) & w.get('dstStageMask') == w.get('dstStageMask')))))),
            ('nothing else is waited for', ForAll([q], Implies(ULT(q, sw.len), And(sw.get(q) != 0, Exists([k], And(ULT(k, W.len), sw.get(q) == w.get('semaphore')))))))]
    r = find(ev, 'vkResetFences')
    out += [('the fence is reset before', Or(fence0.get('m_fence') == 0, And(z3.BoolVal(len(r) == 1 and r[0] < s), *( [ptrval(ev[r[0]].args['pFences']) == fence0.get('m_fence')] if len(r) == 1 else []))))]
    d = find(ev, 'loop:deletions')
    out += [('deferred deletions run once', z3.BoolVal(len(d) == 1))]
    if len(d) == 1 and find(ev, 'record'):
        i = find(ev, 'record')[0]
        out += [('recorded, then fence reset, then submitted', z3.BoolVal(i < s and i < d[0] and all(i < x for x in r)))]
        out += [('deletions wait for the fence', z3.BoolVal(all(x < d[0] for x in r)))]
    R = c.res()
    fs = G.field(E, 'm_finalState')
    out += [('returns its own semaphore, at the stage of its last pass', And(R.len == 1, R.get(b64(0)).get('semaphore') == c.old(c.f('m_semaphore')),
                                                                              R.get(b64(0)).get('dstStageMask') == fs.get().get('m_currPipelineState').get('pipelineStage')))]
    return out


def ptr_get(p):
    """the value a pointer designates"""
    if isinstance(p, PtrRef):
        return p.ref.get()
    if isinstance(p, PtrElem):
        return p.vec.get().get(p.idx)
    return p




def run_havoc(c):
    record_havoc(c)
    w = c.f('m_fence').field(c.E, 'm_fenceWaited')
    g = obj(c, c.this, 'm_context', 'crg::GraphContext')
    for n in ('delQueue', 'm_allocated'):
        set_fresh(c, g.field(c.E, n))


contract('crg::RunnableGraph::run', ['P18', 'P22'], np=2, sub='const SemaphoreWaitArray &', key='crg::RunnableGraph::run(waits)', requires=rg_req, may_throw=lambda c: TRUE, ensures=run_waits, trace_ok=True,
         call_ensures=lambda c: [], havoc=run_havoc, emits=lambda c: ghost_ev(c, 'run', this=c.this.addr, waits=c.av(0), queue=c.av(1), res=c.result),
         loops={0: LoopSpec(lambda c: [])})


def run_one(c, want):
    """run() with other arguments is one run with these waits"""
    ev = c.events()
    ok = names(ev) == ['run']
    out = [('one run of the graph', z3.BoolVal(ok))]
    if ok:
        a = ev[0].args
        out += [('of this graph, on the queue given', And(a['this'] == c.this.addr, a['queue'] == c.av(c.npar - 1))),
                ('its outcome is returned', c.E.eq_val(c.res(), a['res']))] + want(a['waits'])
    return out


def sem_wait(c):
    w = c.av(0)
    n = w.get('semaphore') != 0
    return run_one(Npar(c, 2), lambda W: [('waits for the semaphore given, if any', And(W.len == If(n, b64(1), b64(0)), Implies(n, c.E.eq_val(W.get(b64(0)), w))))])


class Npar:
    def __init__(self, c, n):
        self.c, self.npar = c, n

    def __getattr__(self, n):
        return getattr(self.c, n)


contract('crg::RunnableGraph::run', ['P18'], np=1, key='crg::RunnableGraph::run(queue)', may_throw=lambda c: TRUE, requires=rg_req, trace_ok=True, modular=False,
         ensures=lambda c: run_one(Npar(c, 1), lambda W: [('waits for nothing', W.len == 0)]))
contract('crg::RunnableGraph::run', ['P18'], np=2, sub='(SemaphoreWait,', key='crg::RunnableGraph::run(wait)', may_throw=lambda c: TRUE, requires=rg_req, trace_ok=True, modular=False, ensures=sem_wait)


# ------------------------------------------------------------------------- timers
T = 'crg::FramePassTimer::'


def timer_ctx(c):
    return obj(c, c.this, 'm_context', 'crg::GraphContext')


def designates(p, o):
    """the pointer or reference value p designates the object o"""
    return (p.ref.addr if isinstance(p, PtrRef) else p) == o.addr


def queries(c, old=False):
    q = c.old(c.f('m_queries')) if old else c.f('m_queries').get()
    return q.get(b64(0)), q.get(b64(1))


def q_is(q, o, w=None, s=None):
    return And(q.get('offset') == o, *([q.get('written') == w] if w is not None else []), *([q.get('started') == s] if s is not None else []))


def timer_new(c, pool, base):
    a, b = queries(c)
    return [('its first pair of queries', q_is(a, base, z3.BoolVal(False), z3.BoolVal(False))), ('its second pair of queries', q_is(b, base + 2, z3.BoolVal(False), z3.BoolVal(False))),
            ('of the pool', c.f('m_timerQueries').get() == pool), ('on the device given', designates(c.f('m_context').get(), c.a(0))),
            ('nothing measured yet', And(c.f('m_cpuTime').get() == 0, c.f('m_gpuTime').get() == 0)), ('scope and name', And(c.f('m_scope').get() == c.av(2), c.E.eq_val(c.f('m_name').get(), c.av(1))))]


contract(T + 'FramePassTimer', ['P20'], np=5, key=T + 'FramePassTimer(shared)', modular=False,
         ensures=lambda c: timer_new(c, c.av(3), c.old(c.a(4))) + [('four queries are reserved', c.a(4).get() == c.old(c.a(4)) + 4), ('does not own the pool', Not(c.f('m_ownPool').get()))])


def own_pool(c):
    ev = [e for e in dev_events(c) if e.name == 'vkCreateQueryPool']
    made = c.f('m_timerQueries').get()
    out = timer_new(c, made, b32(0)) + [('owns the pool', c.f('m_ownPool').get()), ('at most one pool', z3.BoolVal(len(ev) <= 1))]
    if not ev:
        return out + [('a pool is created when the device can', fn_ptr(c.a(0), c.E, 'vkCreateQueryPool') == 0)]
    return out + pool_new(ev[0], made, b32(4))


def pool_new(e, made, n):
    i = ptrval(e.args['pCreateInfo'])
    return [('a timestamp pool with room for the queries', And(i.get('queryType') == 2, i.get('queryCount') == n)), ('it is the one kept', made == ptrval(e.args['pQueryPool'])), ('the creation succeeded', e.ret == 0)]


contract(T + 'FramePassTimer', ['P20'], np=3, key=T + 'FramePassTimer(own)', modular=False, trace_ok=True, ensures=own_pool, may_throw=lambda c: TRUE)


def query_pool(c):
    ev = [e for e in dev_events(c) if e.name == 'vkCreateQueryPool']
    if not ev:
        return [('a pool is created when the device can', fn_ptr(c.a(0), c.E, 'vkCreateQueryPool') == 0), ('no pool', c.res() == 0)]
    return [('one pool', z3.BoolVal(len(ev) == 1))] + pool_new(ev[0], c.res(), c.av(2))


contract('crg::createQueryPool', ['P20'], modular=False, trace_ok=True, ensures=query_pool, may_throw=lambda c: TRUE,
         post_throw=lambda c: [('only when the creation failed', dev_events(c)[0].ret != 0 if dev_events(c) else z3.BoolVal(False))])


def time_stays(c, *but):
    return [('nothing else of the timer changes', And(*[c.E.eq_val(c.f(n).get(), c.old(c.f(n))) for n, t, _ in c.E.T.fields('crg::FramePassTimer') if n not in but + ('onDestroy', 'm_context')]))]


def begin_pass(c):
    a, b = queries(c)
    a0, b0 = queries(c, True)
    ev = c.events()
    ok = names(ev) == ['vkCmdResetQueryPool', 'vkCmdWriteTimestamp']
    out = [('the other pair of queries becomes the current one', And(c.E.eq_val(a, b0), c.E.eq_val(b, a0))), ('a reset, then a timestamp', z3.BoolVal(ok))] + time_stays(c, 'm_queries')
    if ok:
        r, w = ev[0].args, ev[1].args
        p = c.f('m_timerQueries').get()
        out += [('exactly the two queries of the pair are reset', And(r['queryPool'] == p, r['firstQuery'] == b0.get('offset'), r['queryCount'] == 2, r['commandBuffer'] == c.av(0))),
                ('the first one gets the start timestamp', And(w['queryPool'] == p, w['query'] == b0.get('offset'), w['commandBuffer'] == c.av(0)))]
    return out


def end_pass(c):
    a, b = queries(c)
    a0, b0 = queries(c, True)
    ev = c.events()
    ok = names(ev) == ['vkCmdWriteTimestamp']
    out = [('the current pair is written', q_is(a, a0.get('offset'), z3.BoolVal(True), a0.get('started'))), ('the other one stays', c.E.eq_val(b, b0)), ('one timestamp', z3.BoolVal(ok))] + time_stays(c, 'm_queries')
    if ok:
        w = ev[0].args
        out += [('the second query of the pair gets the end timestamp', And(w['queryPool'] == c.f('m_timerQueries').get(), w['query'] == a0.get('offset') + 1, w['commandBuffer'] == c.av(0)))]
    return out


def notify(c):
    a, b = queries(c)
    a0, b0 = queries(c, True)
    return [('the current pair is submitted', q_is(a, a0.get('offset'), a0.get('written'), z3.BoolVal(True))), ('the other one stays', c.E.eq_val(b, b0))] + time_stays(c, 'm_queries')


def retrieve(c):
    a, b = queries(c)
    a0, b0 = queries(c, True)
    ev = c.events()
    avail = And(a0.get('started'), a0.get('written'))
    F_ = z3.BoolVal(False)
    out = [('results are read exactly when the queries were written and submitted', avail == z3.BoolVal(bool(ev))),
           ('they are read once', q_is(a, a0.get('offset'), If(avail, F_, a0.get('written')), If(avail, F_, a0.get('started')))), ('the other pair stays', c.E.eq_val(b, b0)),
           ('no time without results', Implies(Not(avail), c.f('m_gpuTime').get() == 0))] + time_stays(c, 'm_queries', 'm_gpuTime', 'm_cpuTime')
    ok = names(ev) in ([], ['vkGetQueryPoolResults'])
    out.append(('one read at most', z3.BoolVal(ok)))
    if ev and ok:
        g = ev[0].args
        out += [('exactly the two queries of the pair are read, in 64 bits, waiting for them', And(g['queryPool'] == c.f('m_timerQueries').get(), g['firstQuery'] == a0.get('offset'), g['queryCount'] == 2, g['dataSize'] == 16, g['stride'] == 8,
                                                                                                    g['flags'] == K32(c.E, 'VK_QUERY_RESULT_WAIT_BIT') | K32(c.E, 'VK_QUERY_RESULT_64_BIT'), g['device'] == c.old(timer_ctx(c).field(c.E, 'device'))))]
        v = g['pData']
        # floating-point operations stay uninterpreted: the harness checks the rounding
        per = c.old(timer_ctx(c).field(c.E, 'properties')).get('limits').get('timestampPeriod')
        fs = per.sort()
        mul, cast = z3.Function('f*', fs, fs, fs), z3.Function('cast_BitVec(64)_float', B64, fs)(v.get(b64(1)) - v.get(b64(0)))
        back = z3.Function('cast_Flt_float_u64', fs, B64)
        t = c.f('m_gpuTime').get()
        out += [('the time is the difference of the two timestamps times the period of its device', Or(t == back(mul(cast, per)), t == back(mul(per, cast))))]
    return out


contract(T + 'beginPass', ['P20'], modular=False, trace_ok=True, ensures=begin_pass)
contract(T + 'endPass', ['P20'], modular=False, trace_ok=True, ensures=end_pass)
contract(T + 'notifyPassRender', ['P20'], modular=False, ensures=notify)
contract(T + 'retrieveGpuTime', ['P20'], modular=False, trace_ok=True, ensures=retrieve)
contract(T + 'reset', ['P20'], modular=False, ensures=lambda c: [('no time', And(c.f('m_cpuTime').get() == 0, c.f('m_gpuTime').get() == 0))] + time_stays(c, 'm_cpuTime', 'm_gpuTime'))
contract(T + 'stop', ['P20'], modular=False, ensures=lambda c: time_stays(c, 'm_cpuTime'))
contract(T + 'start', ['P20'], modular=False, ensures=lambda c: time_stays(c, 'm_cpuSaveTime'))
