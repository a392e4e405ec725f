"""Recording of one pass (P21): transitions, clears, callbacks and implicit transitions, in order."""
from .common import *
from .layout import *
from .handlers import *
from .barriers import vk, R, ghost, view_pre
from .attachments import SAMPLED, STORAGE, TRANSFER, TRANSITION, DEPTH, STENCIL, is_trans, img_use, buf_use, img_layout, img_access, img_stage, buf_access, buf_stage, one, idx_ok, has, A_IN, A_OUT, A_IMAGE, A_BUFFER, A_NOTRANS, A_CLEAR, B_STORAGE, B_TRANSFER, B_TRANSITION
from . import submit as S
from .submit import names, find, ptrval, enabled, pass_index, obj, set_fresh, context_havoc, ghost_ev, ident, rp_inv, registered, same_buffers

UNDEF = 'VK_IMAGE_LAYOUT_UNDEFINED'


# ------------------------------------------------------------------------- what a pass has to be transitioned from
def read_of(E, M, iid, vt, r):
    """the value read of a tracked map, as a term"""
    got, has_ = hread(E, M, iid, virtual_range(E, iid, vt, r))
    return got, has_


def cur_state(c, iid, vt, r):
    """tracked state, else what the graph got as input, else what the graph left at its previous run"""
    E = c.E
    G = obj(c, c.this, 'm_graph', 'crg::FrameGraph')
    ctx = c.a(0)
    M0 = c.old(ctx.field(E, 'm_images').field(E, 'images'))
    M1 = ctx.field(E, 'm_images').field(E, 'images').get()
    I = c.old(G.field(E, 'm_inputs').field(E, 'images'))
    F = c.old(G.field(E, 'm_finalState').field(E, 'm_images').field(E, 'images'))
    res = c.res()
    u = K32(E, UNDEF)
    vr = virtual_range(E, iid, vt, r)

    def known(M):
        g, h = hread(E, M, iid, vr)
        return And(h, g.get('layout') != u), g
    (k0, g0), (k1, g1), (k2, g2) = known(M0), known(I), known(F)
    return [('what this recording left comes first', Implies(k0, E.eq_val(res, g0))),
            ('then what the graph was given as input', Implies(And(Not(k0), k1), E.eq_val(res, g1))),
            ('then what the graph left at its previous run', Implies(And(Not(k0), Not(k1), k2), E.eq_val(res, g2))),
            ('otherwise undefined', Implies(And(Not(k0), Not(k1), Not(k2)), res.get('layout') == u)),
            ('a state that was already tracked stays', Implies(k0, E.eq_val(M0, M1))),
            ('an unknown state stays unknown', Implies(And(Not(k0), Not(k1), Not(k2)), E.eq_val(M0, M1))),
            ('an adopted state becomes the tracked one of exactly that range', Implies(And(Not(k0), Or(k1, k2)), hrecorded(E, M0, M1, iid, vr, res)))]


def cur_havoc(c):
    r = c.a(0).field(c.E, 'm_images').field(c.E, 'images')
    r.set(c.E.fresh(r.ty, 'images'))


def cur_emit(c, iid, vt, r):
    ghost(c, 'current', this=c.this.addr, context=ident(c.a(0)), image=iid, viewType=vt, range=r, res=c.res())


def img_req(c, i):
    return [('the image exists', img_ok(c.E, c.av(i))), ('the range does not wrap', nowrap(c.av(i + 2))), ('a mip level exists', lvl_ok(c.av(i + 2)))]


G_ = 'crg::RunnableGraph::getCurrentLayoutState'
contract(G_, ['P21'], np=4, key=G_ + '(image)', requires=lambda c: img_req(c, 1), havoc=cur_havoc,
         ensures=lambda c: cur_state(c, c.av(1), c.av(2), c.av(3)), emits=lambda c: cur_emit(c, c.av(1), c.av(2), c.av(3)))


def cur_view(c):
    ev = c.events()
    ok = names(ev) == ['current']
    out = [('is one lookup', z3.BoolVal(ok))]
    if ok:
        iid, vt, r = view_parts(c.E, c.av(1))
        a = ev[0].args
        E = c.E
        out += [('of the image and range of the view, in the context given', And(E.eq_val(a['image'], iid), a['viewType'] == vt, E.eq_val(a['range'], r), a['context'] == ident(c.a(0)), a['this'] == c.this.addr)),
                ('its outcome is returned', E.eq_val(c.res(), a['res']))]
    return out


contract(G_, ['P21'], np=2, key=G_ + '(view)', requires=lambda c: view_pre(c, 1), havoc=cur_havoc, ensures=cur_view,
         call_ensures=lambda c: cur_state(c, *view_parts(c.E, c.av(1))), emits=lambda c: cur_emit(c, *view_parts(c.E, c.av(1))))


# ------------------------------------------------------------------------- implicit transitions
def implicit(c):
    E = c.E
    T0 = c.old(c.f('m_implicitTransitions'))
    T1 = c.f('m_implicitTransitions').get()
    v = c.av(2)
    j, k = z3.BitVecs('j!it k!it', 64)
    hit = lambda x: And(ULT(x, T0.len), T0.get(x).get('view').get('id') == v.get('id'))
    first = lambda x: And(hit(x), ForAll([k], Implies(ULT(k, x), Not(hit(k)))))
    shift = lambda x: And(T1.len == T0.len - 1, ForAll([k], Implies(ULT(k, x), E.eq_val(T1.get(k), T0.get(k)))), ForAll([k], Implies(And(ULE(x, k), ULT(k, T1.len)), E.eq_val(T1.get(k), T0.get(k + 1)))))
    ev = c.events()
    out = [('at most one action runs', z3.BoolVal(len(ev) <= 1 and all(e.name.startswith('call:') for e in ev)))]
    if len(ev) == 1:
        a = ev[0].args
        out += [('one was registered', Exists([j], hit(j))),
                ('it is the action registered first for the view, of a pass that is disabled', ForAll([j], Implies(first(j), And(Not(enabled(E, T0.get(j).get('pass'))), a['fn'] == T0.get(j).get('action'))))),
                ('it records into the command buffer given, for the index given', And(a['a1'] == c.av(0), a['a2'] == c.av(1), z3.BoolVal(ident(a['a0']) == ident(c.this)) if not z3.is_expr(ident(c.this)) else ident(a['a0']) == ident(c.this)))]
        T1 = ev[0].seen.get((0, 'm_implicitTransitions'))
        out += [('the registration is used up before the action runs', ForAll([j], Implies(first(j), shift(j))) if T1 is not None else z3.BoolVal(False))]
        return out
    none = ForAll([j], Not(hit(j)))
    out += [('without an action none was registered, or its pass is enabled', ForAll([j], Implies(first(j), enabled(E, T0.get(j).get('pass'))))),
            ('nothing changes when none was registered', Implies(none, E.eq_val(T0, T1))),
            ('the registration is used up', ForAll([j], Implies(first(j), shift(j))))]
    return out


contract(R + 'runImplicitTransition', ['P16', 'P21'], requires=lambda c: [('registered passes exist', registered(c.E, c.this))],
         ensures=implicit, call_ensures=lambda c: [], trace_ok=True, havoc=lambda c: context_havoc(c, c.this),
         emits=lambda c: ghost(c, 'implicit', this=ident(c.this), cmd=c.av(0), index=c.av(1), view=c.av(2)))




# ------------------------------------------------------------------------- one pass
def wf(c):
    """what construction and declaration guarantee"""
    for n, g in pass_wf(c, c.a(1).get()) + [('', registered(c.E, c.a(2)))]:
        c.E.assume(g)


def pass_of(c):
    return obj(c, c.this, 'm_pass', 'crg::FramePass')


def att_at(c, which, k):
    return pass_of(c).field(c.E, which).get().get(k)


def att_wf(E, a, which, index):
    """a declared use: an image or a buffer, with one use, and a resource for the index"""
    f = a.get('flags')
    img, buf = has(f, A_IMAGE), has(f, A_BUFFER)
    if which == 'images':
        p = a.get('imageAttach')
        v = p.get('views').get(simp(one(p.get('views'), index)))
        iid, vt, r = view_parts(E, v)
        return And(img, Not(buf), img_use(p.get('flags')), idx_ok(p.get('views'), index), ULT(p.get('views').len, b64(1 << 32)), p.get('views').len != 0,
                   v.get('data') != 0, img_ok(E, iid), nowrap(r), lvl_ok(r))
    p = a.get('bufferAttach')
    B = p.get('buffer').get('m_buffers')
    return And(buf, Not(img), buf_use(p.get('flags')), idx_ok(B, index), ULT(B.len, b64(1 << 32)), B.len != 0)


def pass_wf(c, index):
    """the uses the pass declares designate resources that exist, for the index"""
    E = c.E
    k = z3.BitVec('k!wf', 64)
    out = []
    for w in ('images', 'buffers'):
        V = pass_of(c).field(E, w).get()
        out.append(('the %s of the pass are well-formed' % w, And(ULT(V.len, b64(1 << 32)), ForAll([k], Implies(ULT(k, V.len), att_wf(E, V.get(k), w, index))))))
    return out


def compute(c):
    cb = c.f('m_callbacks').get().get('isComputePass').get('m_callback')
    return z3.Function('cb!Bool', cb.sort(), z3.BoolSort())(cb)


def gctx(c):
    return obj(c, c.this, 'm_context', 'crg::GraphContext')


def state_is(s, lay, acc, stg):
    return And(s.get('layout') == lay, s.get('state').get('access') == acc, s.get('state').get('pipelineStage') == stg)


def image_iter(c, ev):
    E = c.E
    a = att_at(c, 'images', c.i0)
    idx = c.entry(c.a(1))
    cb = c.entry(c.a(0))
    p = a.get('imageAttach')
    f, pf = a.get('flags'), p.get('flags')
    inn, outp = has(f, A_IN), has(f, A_OUT)
    v = p.get('views').get(simp(one(p.get('views'), idx)))
    iid, vt, r = view_parts(E, v)
    moves = And(Not(has(f, A_NOTRANS)), Or(pf == SAMPLED, pf == STORAGE, pf == TRANSFER, is_trans(pf)))
    clears = And(outp, has(f, A_CLEAR))
    known, lay = img_layout(E, pf, p.get('wantedLayout'), gctx(c).field(E, 'separateDepthStencilLayouts').get(), inn, outp)
    acc = img_access(E, pf, p.get('wantedLayout'), inn, outp)
    stg = img_stage(E, pf, p.get('wantedLayout'), compute(c))
    n = names(ev)
    dev = [x for x in n if x != 'current' and not x.startswith('call:log')]
    ok = dev in (['implicit'], ['implicit', 'imageBarrier'], ['implicit', 'imageBarrier', 'createImage', 'vkCmdClearColorImage', 'imageBarrier'],
                 ['implicit', 'imageBarrier', 'createImage', 'vkCmdClearDepthStencilImage', 'imageBarrier'])
    out = [('implicit transition, then clear, then transition', z3.BoolVal(ok))]
    if not ok:
        return out
    im = ev[0].args
    out += [('the implicit transition of the view runs first', And(z3.BoolVal(n[0] == 'implicit'), im['cmd'] == cb, im['index'] == idx, E.eq_val(im['view'], v), same(im['this'], ident(c.a(2)))))]
    bars = [e for e in ev if e.name == 'imageBarrier']
    out += [('transitioned exactly when the declared use asks for it', moves == z3.BoolVal(bool(bars)))]
    cur = [e for e in ev if e.name == 'current']
    und = K32(E, UNDEF)
    for b in bars:
        x = b.args
        out += [('in this context, of the image, view type and range of the view of the index', And(x['cmd'] == cb, E.eq_val(x['image'], iid), x['viewType'] == vt, E.eq_val(x['range'], r), same(x['this'], ident(c.a(2)))))]
    if bars:
        out += [('into the layout, accesses and stages of the declared use', And(state_at(bars[-1].args['wanted'], 'state', acc, stg), Implies(known, bars[-1].args['wanted'].get('layout') == lay)))]
        ini = bars[0].args['initial']
        if cur:
            q = cur[0].args
            out += [('from the state the graph knows, for an input', And(inn, z3.BoolVal(len(cur) == 1), ini == q['res'].get('layout'), E.eq_val(q['image'], iid), q['viewType'] == vt, E.eq_val(q['range'], r), same(q['context'], ident(c.a(2)))))]
        else:
            out += [('what is not an input starts from undefined', And(Not(inn), ini == und))]
        out += [('cleared exactly when it is a cleared output', clears == z3.BoolVal(len(bars) == 2))]
    if len(bars) == 2:
        dst = K32(E, 'VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL')
        out += [('first into the transfer destination state', state_is(bars[0].args['wanted'], dst, K32(E, 'VK_ACCESS_TRANSFER_WRITE_BIT'), K32(E, 'VK_PIPELINE_STAGE_TRANSFER_BIT')))]
        cl = [e for e in ev if e.name.startswith('vkCmdClear')][0]
        cr = [e for e in ev if e.name == 'createImage'][0]
        colour = cl.name == 'vkCmdClearColorImage'
        d = view_data(E, v).field(E, 'info').get().get('format')
        from .tables import fmt_in, DEPTH as DF, STENCIL as SF
        out += [('colours as colours, depth and stencil as such', z3.BoolVal(colour) == And(Not(fmt_in(E, d, DF)), Not(fmt_in(E, d, SF)))),
                ('the image of the view is cleared', And(cl.args['image'] == cr.ret, E.eq_val(cr.args['image'], iid), cl.args['commandBuffer'] == cb)),
                ('in the layout it was moved to', cl.args['imageLayout'] == dst),
                ('over the range of the view', And(cl.args['rangeCount'] == 1, E.eq_val(ptrval(cl.args['pRanges']), r))),
                ('to zero', zero_clear(E, ptrval(cl.args['pColor' if colour else 'pDepthStencil']), colour)),
                ('then on from the transfer destination layout', bars[1].args['initial'] == dst)]
    return out


def zero_clear(E, v, colour):
    if not colour:
        return E.eq_val(v, E.zero(v.ty))
    return Or(*[E.eq_val(v.get(n), E.zero(v.get(n).ty if hasattr(v.get(n), 'ty') else E.T.field_ty(v.ty.name, n))) for n in ('float32', 'int32', 'uint32')])


def same(a, b):
    return z3.BoolVal(a == b) if not z3.is_expr(a) and not z3.is_expr(b) else a == b


def state_at(w, n, acc, stg):
    return And(w.get(n).get('access') == acc, w.get(n).get('pipelineStage') == stg)


def aligned(E, x):
    return (x + 3) & ~b64(3)


def buffer_iter(c, ev):
    E = c.E
    a = att_at(c, 'buffers', c.i0)
    idx = c.entry(c.a(1))
    cb = c.entry(c.a(0))
    p = a.get('bufferAttach')
    f, pf = a.get('flags'), p.get('flags')
    inn, outp = has(f, A_IN), has(f, A_OUT)
    B = p.get('buffer').get('m_buffers')
    buf = B.get(simp(one(B, idx)))
    rg = p.get('range')
    moves = And(Not(has(f, A_NOTRANS)), Or(has(pf, B_STORAGE), has(pf, B_TRANSFER), has(pf, B_TRANSITION)))
    clears = And(outp, has(f, A_CLEAR))
    acc = buf_access(E, pf, p.get('wantedAccess'), inn, outp)
    stg = buf_stage(E, pf, p.get('wantedAccess'), compute(c))
    n = names(ev)
    ok = n in ([], ['bufferBarrier'], ['bufferBarrier', 'vkCmdFillBuffer', 'bufferBarrier'])
    out = [('clear, then transition', z3.BoolVal(ok))]
    if not ok:
        return out
    bars = [e for e in ev if e.name == 'bufferBarrier']
    out += [('transitioned exactly when the declared use asks for it', moves == z3.BoolVal(bool(bars)))]
    for b in bars:
        x = b.args
        out += [('in this context, of the buffer of the index, over the declared range', And(x['cmd'] == cb, x['buffer'] == buf, E.eq_val(x['range'], rg), same(x['this'], ident(c.a(2)))))]
    if bars:
        M = c.b(c.a(2).field(E, 'm_buffers'))
        x = bars[0].args
        t = M.at(buf)
        tr, none = K32(E, 'VK_ACCESS_TRANSFER_WRITE_BIT'), K32(E, 'VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT')
        out += [('into the accesses and stages of the declared use', And(bars[-1].args['wanted'].get('access') == acc, bars[-1].args['wanted'].get('pipelineStage') == stg)),
                ('from the tracked state', And(x['access'] == If(M.has(buf), t.get('access'), b32(0)), x['stage'] == If(M.has(buf), t.get('pipelineStage'), none))),
                ('cleared exactly when it is a cleared output', clears == z3.BoolVal(len(bars) == 2))]
    if len(bars) == 2:
        fl = ev[1].args
        whole = b64(0xFFFFFFFFFFFFFFFF)
        out += [('first into the transfer destination state', And(bars[0].args['wanted'].get('access') == K32(E, 'VK_ACCESS_TRANSFER_WRITE_BIT'), bars[0].args['wanted'].get('pipelineStage') == K32(E, 'VK_PIPELINE_STAGE_TRANSFER_BIT'))),
                ('the buffer is filled with zero', And(fl['dstBuffer'] == buf, fl['commandBuffer'] == cb, fl['data'] == 0)),
                ('over the declared range, aligned as the device asks', And(fl['dstOffset'] == aligned(E, rg.get('offset')), fl['size'] == If(rg.get('size') == whole, whole, aligned(E, rg.get('size')))))]
    return out


def action_iter(which):
    def f(c, ev):
        A = c.f('m_ruConfig').get().get(which)
        ok = len(ev) == 1 and ev[0].name.startswith('call:')
        out = [('one action runs', z3.BoolVal(ok))]
        if ok:
            a = ev[0].args
            out += [('the actions run in order, into the command buffer, for the index', And(a['fn'] == A.get(c.i0), a['a1'] == c.entry(c.a(0)), a['a2'] == c.entry(c.a(1)), same(ident(a['a0']), ident(c.a(2)))))]
        return out
    return f


def register_iter(c, ev):
    E = c.E
    T = c.a(2).field(E, 'm_implicitTransitions')
    T0, T1 = c.b(T), T.get()
    M = c.f('m_ruConfig').get().get('implicitActions')
    k = z3.BitVec('k!ri', 64)
    e = T1.get(T0.len)
    key = M.keyval(c.key)
    return [('no command is recorded', z3.BoolVal(not ev)),
            ('one registration is added', And(T1.len == T0.len + 1, ForAll([k], Implies(ULT(k, T0.len), E.eq_val(T1.get(k), T0.get(k)))))),
            ('for this pass, the view and its action', And(e.get('pass') == c.this.addr, e.get('view').get('id') == key.get('id') if hasattr(key, 'get') else TRUE, e.get('action') == E.to_term(M.at(c.key), M.ty.b)))]


def record_into(c):
    E, ev = c.E, c.events()
    on = enabled(E, c.this.addr)
    cb = c.av(0)
    out = same_buffers(c)
    parts = ['loop:images', 'loop:buffers', 'loop:pre', 'record', 'loop:post', 'loop:registered']
    n = names(ev)
    calls = [i for i, e in enumerate(ev) if e.name.startswith('call:') and callee_is(c, e, 'record')]
    inits = [i for i, e in enumerate(ev) if e.name.startswith('call:') and callee_is(c, e, 'initialise')]
    if not calls:
        return out + [('an enabled pass is recorded', Not(on)), ('a disabled pass records nothing', z3.BoolVal(all(x.startswith('loop:registered') for x in n)))]
    out += [('only an enabled pass is recorded', on), ('its callback records once', z3.BoolVal(len(calls) == 1))]
    a = ev[calls[0]].args
    out += [('into the command buffer, for the index, in the context', And(a['a1'] == cb, a['a2'] == c.av(1), same(ident(a['a0']), ident(c.a(2)))))]
    was = c.old(c.f('m_passes')).get(z64(c.av(1))).get('initialised')
    out += [('initialised before, once', was != z3.BoolVal(len(inits) == 1)), ('at most once', z3.BoolVal(len(inits) <= 1))]
    out += [('for the index', And(*[ev[i].args['a0'] == c.av(1) for i in inits])), ('from then on initialised', c.f('m_passes').get().get(z64(c.av(1))).get('initialised'))]
    pos = [find(ev, x) for x in ('loop:images', 'loop:buffers', 'loop:pre')]
    aft = [find(ev, x) for x in ('loop:post', 'loop:registered')]
    order = [p[0] for p in pos if p] + [calls[0]] + [p[0] for p in aft if p]
    out += [('initialisation, images, buffers, actions before, the pass, actions after, registrations', z3.BoolVal(order == sorted(order) and all(i < order[0] for i in inits)))]
    ts, rs = find(ev, 'vkCmdWriteTimestamp'), find(ev, 'vkCmdResetQueryPool')
    out += [('timed from before its first command to after its last one', z3.BoolVal(len(ts) == 2 and ts[0] < order[0] and all(ts[1] > x for x in order if n[x] != 'loop:registered')))]
    return out


def callee_is(c, e, member):
    cb = c.old(c.f('m_callbacks')).get(member)
    cb = cb.get('m_callback') if hasattr(cb, 'get') and not z3.is_expr(cb) else cb
    f = e.args['fn']
    return z3.is_expr(f) and z3.is_expr(cb) and simp(f).eq(simp(cb))


contract('crg::FramePassGroup::getFullName', ['P21'], recursive=True, call_ensures=lambda c: [], ensures=lambda c: [('no device command', z3.BoolVal(not c.events()))])
contract('crg::checkUndefinedInput', ['P21'], trace_ok=True, ensures=lambda c: [('no device command', z3.BoolVal(not [e for e in c.events() if e.name.startswith('vk')]))], call_ensures=lambda c: [],
         requires=lambda c: [('the view exists', c.av(2).get('data') != 0)])
split_contract('crg::RunnablePass::recordInto', ['P21', 'P22'], [lambda c: c.f('m_ruConfig').get().get('resettable'), lambda c: c.f('m_passes').get().get(z64(c.av(1))).get('initialised')], requires=lambda c: rp_inv(c) + [('the pass index exists', S.in_range(c, c.av(1)))],
         setup=wf,
         budget=200, ensures=record_into, call_ensures=S.same_buffers, havoc=S.rec_havoc, trace_ok=True, may_throw=lambda c: TRUE,
         emits=lambda c: ghost_ev(c, 'recordInto', this=c.this.addr, cmd=c.av(0), index=c.av(1), context=ident(c.a(2))),
         loops={0: LoopSpec(lambda c: inv_reg(c), iter=image_iter, label='images'), 1: LoopSpec(lambda c: inv_reg(c), iter=buffer_iter, label='buffers'),
                2: LoopSpec(lambda c: inv_reg(c), iter=action_iter('prePassActions'), label='pre'), 3: LoopSpec(lambda c: inv_reg(c), iter=action_iter('postPassActions'), label='post'),
                4: LoopSpec(lambda c: inv_reg(c), iter=register_iter, label='registered')})


def inv_reg(c):
    return [('registered passes exist', registered(c.E, c.a(2)))]


# ------------------------------------------------------------------------- registering implicit transitions (P16)
def appended(c, pas, view, action):
    E = c.E
    T0, T1 = c.old(c.f('m_implicitTransitions')), c.f('m_implicitTransitions').get()
    k = z3.BitVec('k!ap', 64)
    e = T1.get(T0.len)
    return [('one registration is added at the end', And(T1.len == T0.len + 1, ForAll([k], Implies(ULT(k, T0.len), E.eq_val(T1.get(k), T0.get(k)))))),
            ('for the pass, view and action given', And(e.get('pass') == pas, E.eq_val(e.get('view'), view), e.get('action') == action)),
            ('no command is recorded', z3.BoolVal(not c.events()))]


RI = R + 'registerImplicitTransition'
contract(RI, ['P16'], np=3, key=RI + '(parts)', modular=False, requires=lambda c: [('fewer than 2^64 registrations', ULT(c.f('m_implicitTransitions').get().len, b64(1 << 60)))],
         ensures=lambda c: appended(c, S.ptr_of(c.a(0)) if hasattr(S, 'ptr_of') else c.a(0).addr, c.av(1), c.av(2)))
contract(RI, ['P16'], np=1, key=RI + '(transition)', modular=False, requires=lambda c: [('fewer than 2^64 registrations', ULT(c.f('m_implicitTransitions').get().len, b64(1 << 60)))],
         ensures=lambda c: appended(c, c.av(0).get('pass'), c.av(0).get('view'), c.av(0).get('action')))
