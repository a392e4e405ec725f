"""Render passes, framebuffers and their layouts (P23); the layout a use leaves its image in."""
from .common import *
from .layout import *
from .handlers import *
from .barriers import vk, R, ghost
from .attachments import one, idx_ok, has, img_layout, is_trans, SAMPLED, STORAGE, TRANSFER, DEPTH, STENCIL, A_IN, A_OUT
from . import submit as S
from .submit import names, ptrval, ident, find, set_fresh
from .passes import att_wf, same
from .descriptors import same_at

HP = 'crg::RenderPassHolder::'
UNDEF = 'VK_IMAGE_LAYOUT_UNDEFINED'
EMPTY = lambda E: K32(E, UNDEF)


# ------------------------------------------------------------------------- the layout an image is wanted in next
def next_state(c):
    E = c.E
    G = S.obj(c, c.this, 'm_graph', 'crg::FrameGraph')
    iid, vt, r = view_parts(E, c.av(2))
    vr = virtual_range(E, iid, vt, r)
    res = c.res()

    def known(M):
        g, h = hread(E, M, iid, vr)
        return And(h, g.get('layout') != EMPTY(E)), g
    k0, g0 = known(c.a(0).field(E, 'm_nextImages').field(E, 'images').get())
    k1, g1 = known(G.field(E, 'm_outputs').field(E, 'images').get())
    g2, h2 = hread(E, c.a(1).field(E, 'm_imageLayouts').field(E, 'images').get(), iid, vr)
    return [('what the passes to come need comes first', Implies(k0, E.eq_val(res, g0))),
            ('then what the graph has to output', Implies(And(Not(k0), k1), E.eq_val(res, g1))),
            ('then what the pass itself uses', Implies(And(Not(k0), Not(k1)), If(h2, E.eq_val(res, g2), res.get('layout') == EMPTY(E))))]


contract('crg::RunnableGraph::getNextLayoutState', ['P23'], np=3, requires=lambda c: view_req(c, 2), ensures=next_state,
         emits=lambda c: ghost(c, 'next', this=c.this.addr, context=ident(c.a(0)), pass_=ident(c.a(1)), view=c.av(2), res=c.res()))


# ------------------------------------------------------------------------- one attachment
def src_of(E, v):
    return view_data(E, v).field(E, 'source').get()


def resolved(E, v, idx):
    s = src_of(E, v)
    return Ite(E, s.len == 0, v, s.get(z64(idx)))


def Ite(E, g, a, b):
    return E.from_term(If(g, E.to_term(a, VIEW), E.to_term(b, VIEW)), VIEW)


VIEW = Ty('struct', name='crg::Id<crg::ImageViewData>')


def plain_wf(E, v):
    iid, vt, r = view_parts(E, v)
    return And(v.get('data') != 0, src_of(E, v).len == 0, img_ok(E, iid), nowrap(r), lvl_ok(r))


def view_wf(E, v, idx):
    """a view that is tracked itself, or one merged from such views, with one for the index"""
    iid, vt, r = view_parts(E, v)
    s = src_of(E, v)
    k = z3.BitVec('k!vw', 64)
    return And(v.get('data') != 0, img_ok(E, iid), nowrap(r), lvl_ok(r), ULT(s.len, b64(1 << 32)), Or(s.len == 0, ULT(z64(idx), s.len)), ForAll([k], Implies(ULT(k, s.len), plain_wf(E, s.get(k)))))


def pushed(E, V, V0, what, is_new):
    return [('one more ' + what, V.len == V0.len + 1), ('what was there stays (%s)' % what, same_at(V, V0, lambda k: ULT(k, V0.len)))] + is_new(V.get(V0.len))


def described(E, e, a, v, frm, to):
    """the description of an attachment: format and samples of its view, from one layout to the other"""
    p = a.get('imageAttach')
    d = view_data(E, v)
    return [('of the format and samples of the view', And(e.get('format') == d.field(E, 'info').get().get('format'), e.get('samples') == img_info(E, d.field(E, 'image').get()).get('samples'))),
            ('cleared when nothing is there yet, else loaded as declared', e.get('loadOp') == If(frm.get('layout') == EMPTY(E), K32(E, 'VK_ATTACHMENT_LOAD_OP_CLEAR'), p.get('loadOp'))),
            ('stored as declared', And(e.get('storeOp') == p.get('storeOp'), e.get('stencilLoadOp') == p.get('stencilLoadOp'), e.get('stencilStoreOp') == p.get('stencilStoreOp'))),
            ('from the layout it is in to the one wanted next', And(e.get('initialLayout') == frm.get('layout'), e.get('finalLayout') == to.get('layout'), e.get('flags') == 0))]


def entry_is(E, e, v, frm, to):
    return And(E.eq_val(e.get('view'), v), E.eq_val(e.get('input'), frm), E.eq_val(e.get('output'), to))


def lay_of(E, a, sep):
    f = a.get('flags')
    p = a.get('imageAttach')
    return img_layout(E, p.get('flags'), p.get('wantedLayout'), sep, has(f, A_IN), has(f, A_OUT))


def add_post(n):
    def f(c):
        E = c.E
        frm, to, sep = c.av(n), c.av(n + 1), c.av(n + 2)
        a, v = c.av(1), c.av(2)
        A, A0 = c.a(3).get(), c.old(c.a(3))
        known, lay = lay_of(E, a, sep)
        out = pushed(E, A, A0, 'description', lambda e: described(E, e, a, v, frm, to))
        out += pushed(E, c.a(4).get(), c.old(c.a(4)), 'entry', lambda e: [('for the view, with both states', entry_is(E, e, v, frm, to))])
        out += pushed(E, c.a(5).get(), c.old(c.a(5)), 'clear value', lambda e: [('the declared one', E.eq_val(e, a.get('imageAttach').get('clearValue')))])
        if n == 7:
            out += pushed(E, c.a(6).get(), c.old(c.a(6)), 'blend state', lambda e: [('the declared one', E.eq_val(e, a.get('imageAttach').get('blendState')))])
        r = c.res()
        return out + [('refers to the description added, in the layout of the declared use', And(z3.ZeroExt(32, r.get('attachment')) == A0.len, Implies(known, r.get('layout') == lay)))]
    return f


def few(c):
    return [('fewer than 2^31 attachments', And(*[ULT(c.a(i).get().len, b64(1 << 31)) for i in (3, 4, 5)]))]


def add_req(c):
    a = c.av(1)
    E = c.E
    return few(c) + [('the attachment is a well-formed image use', And(has(a.get('flags'), 1 << 2) if False else TRUE))] + att_img(E, a) + [('the view is well-formed', view_wf(E, c.av(2), b32(0)))]


def att_img(E, a):
    from .passes import A_IMAGE, A_BUFFER, img_use
    f = a.get('flags')
    return [('it is an image use', And(has(f, A_IMAGE), Not(has(f, A_BUFFER)), img_use(a.get('imageAttach').get('flags'))))]


def add_hv(*ix):
    def f(c):
        for i in ix:
            set_fresh(c, c.a(i))
        track_hv(c, c.a(0))
    return f


def track_hv(c, ctx):
    r = ctx.field(c.E, 'm_images').field(c.E, 'images')
    r.set(c.E.fresh(r.ty, 'images'))


AA = 'crg::rpHolder::addAttach'
contract(AA, ['P23'], np=9, key=AA, requires=add_req, havoc=add_hv(3, 4, 5), ensures=add_post(6), loops={0: LoopSpec(lambda c: [])})
contract(AA, ['P23'], np=10, key=AA + '(colour)', requires=lambda c: add_req(c) + [('fewer than 2^31 blend states', ULT(c.a(6).get().len, b64(1 << 31)))], havoc=add_hv(3, 4, 5, 6), ensures=add_post(7))


# ------------------------------------------------------------------------- end of one
def data_at(c, idx):
    return c.f('m_passes').get().get(z64(idx))


def pd_clean(c):
    E = c.E
    d, d0 = c.this.get(), c.old(c.this)
    ev = [e for e in c.events() if e.name.startswith('vk')]
    out = [('what described it is gone', And(d.get('attaches').len == 0, d.get('clearValues').len == 0, d.get('renderPass') == 0, d.get('frameBuffer') == 0))]
    for n, f, p in (('vkDestroyFramebuffer', 'frameBuffer', 'framebuffer'), ('vkDestroyRenderPass', 'renderPass', 'renderPass')):
        x = [e for e in ev if e.name == n]
        out += [(n + ' exactly when there is one', And(z3.BoolVal(len(x) <= 1), (d0.get(f) != 0) == z3.BoolVal(len(x) == 1)))] + [('that one', And(e.args[p] == d0.get(f), e.args['device'] == c.a(0).field(E, 'device').get())) for e in x]
    return out + [('nothing else is destroyed', z3.BoolVal(all(e.name in ('vkDestroyFramebuffer', 'vkDestroyRenderPass') for e in ev))), ('the areas stay', And(E.eq_val(d.get('renderArea'), d0.get('renderArea')), E.eq_val(d.get('attachments'), d0.get('attachments'))))]


def pd_hv(c):
    set_fresh(c, c.this)
    S.heap_havoc(c, 'crg::GraphContext', 'm_allocated')


contract(HP + 'PassData::cleanup', ['P23'], trace_ok=True, havoc=pd_hv, ensures=pd_clean, call_ensures=lambda c: [x for x in pd_state(c)],
         emits=lambda c: S.ghost_ev(c, 'passCleanup', renderPass=c.old(c.this).get('renderPass'), frameBuffer=c.old(c.this).get('frameBuffer')))


def pd_state(c):
    d, d0 = c.this.get(), c.old(c.this)
    return [('nothing is left', And(d.get('attaches').len == 0, d.get('clearValues').len == 0, d.get('renderPass') == 0, d.get('frameBuffer') == 0))]


# ------------------------------------------------------------------------- whether the layouts are still those it was made for
def tracked_of(E, M, v):
    iid, vt, r = view_parts(E, v)
    return hread(E, M, iid, virtual_range(E, iid, vt, r))


def differs(E, a, b):
    return Or(a.get('layout') != b.get('layout'), a.get('state').get('access') != b.get('state').get('access'),
              And(a.get('state').get('access') != 0, a.get('state').get('pipelineStage') != b.get('state').get('pipelineStage')))


def stale(E, M, e, idx):
    got, have = tracked_of(E, M, resolved(E, e.get('view'), idx))
    return And(have, differs(E, got, e.get('input')), got.get('layout') != EMPTY(E))


def entries_wf(E, V, idx):
    k = z3.BitVec('k!ew', 64)
    return And(ULT(V.len, b64(1 << 32)), ForAll([k], Implies(ULT(k, V.len), view_wf(E, V.get(k).get('view'), idx))))


def check_post(c):
    E = c.E
    V = c.a(1).get()
    M = c.a(0).field(E, 'm_images').field(E, 'images').get()
    k = z3.BitVec('k!ck', 64)
    bad = lambda k: And(ULT(k, V.len), stale(E, M, V.get(k), c.av(2)))
    return [('true only when every attachment is where it was, or unknown', Implies(c.res(), ForAll([k], Not(bad(k))))),
            ('false only when one is elsewhere', Implies(Not(c.res()), Exists([k], bad(k))))]


contract('crg::rpHolder::checkAttaches', ['P23'], requires=lambda c: [('the entries are well-formed', entries_wf(c.E, c.a(1).get(), c.av(2)))], ensures=check_post,
         emits=lambda c: S.ghost_ret(c, 'checked', c.res(), context=ident(c.a(0)), entries=c.a(1).get(), index=c.av(2)))


# ------------------------------------------------------------------------- the render pass
def pass_images(c):
    return obj_pass(c).field(c.E, 'images').get()


def obj_pass(c):
    return S.obj(c, c.this, 'm_pass', 'crg::FramePass')


def is_colour(a):
    return a.get('imageAttach').get('flags') == 0


def is_dsa(a):
    f = a.get('imageAttach').get('flags')
    return And(Or(has(f, DEPTH), has(f, STENCIL)), Not(is_trans(f)))


def is_target(a):
    return Or(is_colour(a), is_dsa(a))


def view_at(a, idx):
    V = a.get('imageAttach').get('views')
    return V.get(simp(one(V, idx)))


def att_any(E, a, idx):
    from .passes import A_IMAGE, A_BUFFER, img_use
    f = a.get('flags')
    p = a.get('imageAttach')
    return And(has(f, A_IMAGE), Not(has(f, A_BUFFER)), img_use(p.get('flags')), idx_ok(p.get('views'), idx), ULT(p.get('views').len, b64(1 << 32)), p.get('views').len != 0, view_wf(E, view_at(a, idx), idx))


def uses_wf(c, idx):
    V = pass_images(c)
    k = z3.BitVec('k!aw', 64)
    return [('fewer than 2^31 declared uses', ULT(V.len, b64(1 << 31))), ('every declared use is well-formed', ForAll([k], Implies(ULT(k, V.len), att_any(c.E, V.get(k), idx))))]


def in_passes(c, idx):
    return [('the index is one of the instances', ULT(z64(idx), c.f('m_passes').get().len))]


def local_vec(c, name):
    return c.by_type(lambda t: t.k == 'vector' and t.a.k == 'struct' and t.a.name == name)


def same_but(c, idx, V=None, V0=None):
    R = c.f('m_passes')
    V, V0 = R.get(), c.old(R)
    return [('as many instances as before, others stay', And(V.len == V0.len, same_at(V, V0, lambda k: And(ULT(k, V0.len), k != z64(idx)))))]


PIDX = lambda c: c.entry(c.a(4)) if hasattr(c, 'entry') else c.av(4)


def desc_of(E, d, e):
    """description d is that of entry e"""
    v = e.get('view')
    w = view_data(E, v)
    return And(d.get('format') == w.field(E, 'info').get().get('format'), d.get('samples') == img_info(E, w.field(E, 'image').get()).get('samples'), d.get('initialLayout') == e.get('input').get('layout'), d.get('finalLayout') == e.get('output').get('layout'))


def rp_loop(c):
    E = c.E
    idx = PIDX(c)
    A, C = local_vec(c, 'VkAttachmentDescription').get(), local_vec(c, 'VkAttachmentReference').get()
    d = data_at(c, idx)
    d0 = c.old(c.f('m_passes')).get(z64(idx))
    k = z3.BitVec('k!rl', 64)
    B = c.f('m_blendAttachs').get()
    return same_but(c, idx) + [
        ('an entry and a clear value for every description', And(A.len == d.get('attaches').len, A.len == d.get('clearValues').len, ULE(A.len, c.i))),
        ('a blend state for every colour', And(C.len == B.len, ULE(C.len, A.len))),
        ('nothing else changes', And(*[E.eq_val(d.get(n), d0.get(n)) for n in ('renderPass', 'frameBuffer', 'renderArea', 'previousState', 'nextState')])),
        ('descriptions are those of the entries', ForAll([k], Implies(ULT(k, A.len), desc_of(E, A.get(k), d.get('attaches').get(k))))),
        ('entries are well-formed', entries_wf(E, d.get('attaches'), idx)),
        ('references are to descriptions', ForAll([k], Implies(ULT(k, C.len), ULT(z64(C.get(k).get('attachment')), A.len))))]


def rp_iter(c, ev):
    E = c.E
    idx = PIDX(c)
    a = pass_images(c).get(c.i0)
    v = view_at(a, idx)
    rs = resolved(E, v, idx)
    A, C = local_vec(c, 'VkAttachmentDescription'), local_vec(c, 'VkAttachmentReference')
    B = c.f('m_blendAttachs')
    d, d0 = data_at(c, idx), c.b(c.f('m_passes')).get(z64(idx))
    V = {'description': (A.get(), c.b(A)), 'entry': (d.get('attaches'), d0.get('attaches')), 'clear value': (d.get('clearValues'), d0.get('clearValues'))}
    D = c.by_type(lambda t: t.k == 'struct' and t.name == 'VkAttachmentReference')
    q = [e for e in ev if e.name in ('current', 'next')]
    n = names(q)
    t = is_target(a)
    out = [('looked up exactly for an attachment', t == z3.BoolVal(n == ['current', 'next'])), ('at most that', z3.BoolVal(n in ([], ['current', 'next'])))]
    keep = lambda x, y: And(x.len == y.len, same_at(x, y, lambda k: ULT(k, y.len)))
    if n != ['current', 'next']:
        return out + [('others add nothing', And(*[keep(*p) for p in V.values()], keep(C.get(), c.b(C)), keep(B.get(), c.b(B)), E.eq_val(D.get(), c.b(D))))]
    x, y = q[0].args, q[1].args
    iid, vt, r = view_parts(E, rs)
    out += [('what it is in now is asked of the view of the index', And(E.eq_val(x['image'], iid), x['viewType'] == vt, E.eq_val(x['range'], r), same(x['context'], ident(c.a(0))))),
            ('what it is wanted in next is asked of that view, for the pass', And(E.eq_val(y['view'], rs), same(y['pass_'], ident(c.a(1))), same(y['context'], ident(c.a(0)))))]
    inn = has(a.get('flags'), A_IN)
    und = lambda s: And(s.get('layout') == EMPTY(E))
    nw = {k: p[0].get(p[1].len) for k, p in V.items()}
    e = nw['entry']
    out += [(('one more %s, the others stay' % k), And(p[0].len == p[1].len + 1, same_at(p[0], p[1], lambda j: ULT(j, p[1].len)))) for k, p in V.items()]
    out += [('its entry is for the view, from what it is in for an input, else undefined, to what is wanted next', And(E.eq_val(e.get('view'), v), Implies(inn, E.eq_val(e.get('input'), x['res'])), Implies(Not(inn), und(e.get('input'))), E.eq_val(e.get('output'), y['res'])))]
    out += described(E, nw['description'], a, v, e.get('input'), y['res'])
    out += [('its clear value is the declared one', E.eq_val(nw['clear value'], a.get('imageAttach').get('clearValue')))]
    known, lay = lay_of(E, a, S.obj(c, c.this, 'm_context', 'crg::GraphContext').field(E, 'separateDepthStencilLayouts').get())
    ref = lambda w: And(z64(w.get('attachment')) == V['description'][1].len, Implies(known, w.get('layout') == lay))
    col = And(C.get().len == c.b(C).len + 1, same_at(C.get(), c.b(C), lambda j: ULT(j, c.b(C).len)), ref(C.get().get(c.b(C).len)), B.get().len == c.b(B).len + 1, same_at(B.get(), c.b(B), lambda j: ULT(j, c.b(B).len)), E.eq_val(B.get().get(c.b(B).len), a.get('imageAttach').get('blendState')), E.eq_val(D.get(), c.b(D)))
    dep = And(ref(D.get()), keep(C.get(), c.b(C)), keep(B.get(), c.b(B)))
    return out + [('a colour is referred to as a colour, with its blend state', Implies(is_colour(a), col)), ('depth and stencil as such', Implies(is_dsa(a), dep))]


def ext_dep(E, d, src, state):
    col = K32(E, 'VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT')
    acc = K32(E, 'VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT') | K32(E, 'VK_ACCESS_COLOR_ATTACHMENT_READ_BIT')
    ext = b32(0xFFFFFFFF)          # VK_SUBPASS_EXTERNAL
    s, t = ('src', 'dst') if src else ('dst', 'src')
    return And(d.get(s + 'Subpass') == ext, d.get(t + 'Subpass') == 0, d.get(s + 'StageMask') == state.get('pipelineStage'), d.get(s + 'AccessMask') == state.get('access'), d.get(t + 'StageMask') == col, d.get(t + 'AccessMask') == acc)


def rp_create(c):
    E = c.E
    ev = c.events()
    vkn = [e for e in ev if e.name.startswith('vk')]
    idx = c.av(4)
    d = data_at(c, idx)
    p, n = c.av(2), c.av(3)
    out = same_but(c, idx) + [('remembers what it was made between', And(E.eq_val(d.get('previousState'), p), E.eq_val(d.get('nextState'), n))),
                              ('an entry and a clear value for every attachment', And(d.get('attaches').len == d.get('clearValues').len)), ('creates at most a render pass', z3.BoolVal(names(vkn) in ([], ['vkCreateRenderPass'])))]
    if names(vkn) != ['vkCreateRenderPass']:
        return out
    i = ptrval(vkn[0].args['pCreateInfo'])
    out += [('the handle is kept', d.get('renderPass') == vkn[0].args['pRenderPass'])]
    at = i.get('pAttachments')
    if not hasattr(at, 'vec'):
        return out + [('attachments are passed', z3.BoolVal(False))]
    A = at.vec.get()
    k = z3.BitVec('k!rc', 64)
    out += [('described by all the descriptions', And(at.idx == 0, z64(i.get('attachmentCount')) == A.len)),
            ('one for every entry, from and to its layouts', And(A.len == d.get('attaches').len, ForAll([k], Implies(ULT(k, A.len), desc_of(E, A.get(k), d.get('attaches').get(k)))))),
            ('entries are well-formed', entries_wf(E, d.get('attaches'), idx)),
            ('one subpass, two dependencies', And(i.get('subpassCount') == 1, i.get('dependencyCount') == 2))]

    s = S.ptr_get(i.get('pSubpasses'))
    cr = s.get('pColorAttachments')
    out += [('it draws', s.get('pipelineBindPoint') == K32(E, 'VK_PIPELINE_BIND_POINT_GRAPHICS')), ('without inputs, resolves and preserved ones', And(s.get('inputAttachmentCount') == 0, s.get('preserveAttachmentCount') == 0)),
            ('which are among the descriptions', ForAll([k], Implies(ULT(k, cr.vec.get().len), ULT(z64(cr.vec.get().get(k).get('attachment')), A.len))) if hasattr(cr, 'vec') else z3.BoolVal(False)),
            ('the colours are all the colour references', And(cr.idx == 0, z64(s.get('colorAttachmentCount')) == cr.vec.get().len, cr.vec.get().len == c.f('m_blendAttachs').get().len) if hasattr(cr, 'vec') else z3.BoolVal(False))]
    dd = i.get('pDependencies')
    if not hasattr(dd, 'vec'):
        return out + [('dependencies are passed', z3.BoolVal(False))]
    V = dd.vec.get()
    return out + [('waits for the state before', ext_dep(E, V.get(dd.idx), True, p)), ('and is waited for with the state after', ext_dep(E, V.get(dd.idx + 1), False, n))]


def rp_create_hv(c):
    set_fresh(c, c.f('m_passes'))
    set_fresh(c, c.f('m_blendAttachs'))
    set_fresh(c, c.f('m_count'))
    track_hv(c, c.a(0))
    S.heap_havoc(c, 'crg::GraphContext', 'm_allocated')


def rp_create_req(c):
    idx = c.av(4)
    d = data_at(c, idx)
    return in_passes(c, idx) + uses_wf(c, idx) + [('nothing is left of one before', And(d.get('attaches').len == 0, d.get('clearValues').len == 0))]


def rp_create_ce(c):
    E = c.E
    d = data_at(c, c.av(4))
    d0 = c.old(c.f('m_passes')).get(z64(c.av(4)))
    return same_but(c, c.av(4)) + [('remembers what it was made between', And(E.eq_val(d.get('previousState'), c.av(2)), E.eq_val(d.get('nextState'), c.av(3)))), ('there is no framebuffer yet', d.get('frameBuffer') == d0.get('frameBuffer')),
                                   ('entries are well-formed', entries_wf(E, d.get('attaches'), c.av(4))), ('an entry and a clear value for every attachment', And(d.get('attaches').len == d.get('clearValues').len, ULT(d.get('attaches').len, b64(1 << 31))))]


contract(HP + 'doCreateRenderPass', ['P23'], trace_ok=True, may_throw=lambda c: TRUE, requires=rp_create_req, havoc=rp_create_hv, ensures=rp_create, call_ensures=rp_create_ce,
         emits=lambda c: S.ghost_ev(c, 'renderPass', this=ident(c.this), index=c.av(4), context=ident(c.a(0)), runnable=ident(c.a(1)), previous=c.av(2), next=c.av(3)),
         loops={0: LoopSpec(rp_loop, iter=rp_iter, label='images')})


# ------------------------------------------------------------------------- its area and layers
def extents(E, v):
    iid, vt, r = view_parts(E, v)
    e = img_info(E, iid).get('extent')
    m = r.get('baseMipLevel')
    at = lambda x: If(ULE(z3.LShR(e.get(x), m), b32(1)), b32(1), z3.LShR(e.get(x), m))
    return at('width'), at('height'), r.get('layerCount')


def needed(E, V, idx, k, j):
    """what a use needs: its extent for an attachment, nothing for others"""
    a = V.get(k)
    return If(is_target(a), extents(E, view_at(a, idx))[j], b32(0))


def area_setup(c):
    """names for what every use needs (definitions)"""
    E = c.E
    V = pass_images(c)
    k = z3.BitVec('k!nd', 64)
    E.needs = [z3.Function('needed!%d' % j, B64, B32) for j in range(3)]
    for j, f in enumerate(E.needs):
        E.assume(ForAll([k], f(k) == needed(E, V, c.av(0), k, j), patterns=[f(k)]))


def covers(c, idx, upto, w, h, l):
    """w, h, l: the greatest of what every attachment up to there needs, and of the least there is"""
    E = c.E
    V = pass_images(c)
    sz = c.f('m_size').get()
    k = z3.BitVec('k!cv', 64)
    out = []
    for n, (x, least, j) in {'width': (w, sz.get('width'), 0), 'height': (h, sz.get('height'), 1), 'layers': (l, b32(1), 2)}.items():
        need = E.needs[j] if getattr(E, 'needs', None) else (lambda k: needed(E, V, idx, k, j))
        out += [('covers every attachment (%s)' % n, And(UGE(x, least), ForAll([k], Implies(ULT(k, upto), UGE(x, need(k)))))),
                ('no more than one needs (%s)' % n, Or(x == least, Exists([k], And(ULT(k, upto), x == need(k)))))]
    return out


def starts_as(c, v):
    """the local that held v when the loop was reached"""
    for r in c.fr.names.values():
        try:
            x = c.old(r)
        except Exception:
            continue
        if z3.is_expr(x) and simp(x).eq(simp(v)):
            return r.get()
    raise Unsupported('no local starts as expected')


def area_uses(name):
    """the parts of the invariant that the extents depend on"""
    for n in ('width', 'height', 'layers'):
        if '(%s)' % n in name:
            return ['what the use needs', 'covers every attachment (%s)' % n, 'no more than one needs (%s)' % n]
    return None


def area_same(c, idx):
    d, d0 = data_at(c, idx), c.old(c.f('m_passes')).get(z64(idx))
    return [('only the area and the attachments change', And(*[c.E.eq_val(d.get(n), d0.get(n)) for n in ('renderPass', 'frameBuffer', 'attaches', 'clearValues', 'previousState', 'nextState')]))]


def area_inv(c):
    E = c.E
    idx = c.entry(c.a(0))
    sz = c.f('m_size').get()
    w, h = starts_as(c, sz.get('width')), starts_as(c, sz.get('height'))
    dfn = And(*[f(c.i) == needed(E, pass_images(c), idx, c.i, j) for j, f in enumerate(E.needs)])
    return [('what the use needs', dfn)] + same_but(c, idx) + area_same(c, idx) + covers(c, idx, c.i, w, h, c.f('m_layers').get()) + [('at most one each', ULE(data_at(c, idx).get('attachments').len, c.i))]


def area_iter(c, ev):
    E = c.E
    idx = c.entry(c.a(0))
    T, T0 = data_at(c, idx).get('attachments'), c.b(c.f('m_passes')).get(z64(idx)).get('attachments')
    R = obj_pass(c).field(E, 'images')
    t = is_target(R.get().get(c.i0))
    return [('listed exactly when it is an attachment, the others stay', And(T.len == T0.len + If(t, b64(1), b64(0)), same_at(T, T0, lambda k: ULT(k, T0.len)))),
            ('it is that use which is listed', Implies(t, E.to_term(T.get(T0.len), Ty('ptr', VOID)) == E.addr_of(ElemRef(E, R, c.i0))))]


def area_post(c):
    E = c.E
    idx = c.av(0)
    d, d0 = data_at(c, idx), c.old(c.f('m_passes')).get(z64(idx))
    e = d.get('renderArea').get('extent')
    return same_but(c, idx) + covers(c, idx, pass_images(c).len, e.get('width'), e.get('height'), c.f('m_layers').get()) + area_same(c, idx)


def area_hv(c):
    set_fresh(c, c.f('m_passes'))
    set_fresh(c, c.f('m_layers'))


contract(HP + 'doInitialiseRenderArea', ['P23'], ematch=True, requires=lambda c: in_passes(c, c.av(0)) + uses_wf(c, c.av(0)), havoc=area_hv, trace_ok=True, setup=area_setup, uses=area_uses, ensures=area_post, call_ensures=lambda c: area_post(c), emits=lambda c: S.ghost_ev(c, 'renderArea', this=ident(c.this), index=c.av(0)), loops={0: LoopSpec(area_inv, iter=area_iter, label='images')})


# ------------------------------------------------------------------------- the framebuffer
def listed_use(E, p):
    """the declared use behind a pointer"""
    return E.deref(p, Ty('struct', name='crg::Attachment'))


def listed_view(E, p, idx):
    V = listed_use(E, p).field(E, 'imageAttach').get().get('views')
    return V.get(simp(one(V, idx)))


def listed_wf(E, T, idx):
    from .passes import A_IMAGE
    k = z3.BitVec('k!lw', 64)

    def ok(p):
        o = listed_use(E, p)
        V = o.field(E, 'imageAttach').get().get('views')
        v = V.get(simp(one(V, idx)))
        return And(v.get('data') != 0, img_ok(E, view_parts(E, v)[0]), has(o.field(E, 'flags').get(), A_IMAGE), idx_ok(V, idx), V.len != 0, ULT(V.len, b64(1 << 32)))
    return [('fewer than 2^32 attachments', ULT(T.len, b64(1 << 32))), ('every attachment has a view for the index', ForAll([k], Implies(ULT(k, T.len), ok(T.get(k)))))]


def fb_req(c, idx):
    return in_passes(c, idx)


def fb_setup(n):
    def f(c):
        """the uses listed for the area are those of the pass (proved where they are listed), which are well-formed"""
        idx = c.av(n)
        for _, g in listed_wf(c.E, data_at(c, idx).get('attachments'), idx):
            c.E.assume(g)
    return f


def fb_iter(c, ev):
    E = c.E
    idx = c.entry(c.a(0))
    p = data_at(c, idx).get('attachments').get(c.i0)
    V = c.by_type(lambda t: t.k == 'vector' and t.name == 'VkImageView' or t.k == 'vector' and getattr(t.a, 'name', '') in ('VkImageView', 'VkImageView_T') or t.k == 'vector' and t.a.k == 'ptr')
    n = [e for e in ev if not e.name.startswith('call:')]
    ok = names(n) == ['createImageView']
    out = [('one view is made', z3.BoolVal(ok))]
    if ok:
        v, v0 = V.get(), c.b(V)
        out += [('of the view of the index', E.eq_val(n[0].args['view'], listed_view(E, p, idx))), ('it comes next', And(v.len == v0.len + 1, same_at(v, v0, lambda k: ULT(k, v0.len)), E.to_term(v.get(v0.len), V.ty.noref().a) == n[0].ret))]
    return out


def fb_inv(c):
    V = c.by_type(lambda t: t.k == 'vector' and t.a.k != 'struct')
    return same_but(c, c.entry(c.a(0))) + [('one view each', V.get().len == c.i), ('instances stay', c.E.eq_val(data_at(c, c.entry(c.a(0))), c.old(c.f('m_passes')).get(z64(c.entry(c.a(0))))))]


def fb_post(c):
    E = c.E
    idx = c.av(0)
    d, d0 = data_at(c, idx), c.old(c.f('m_passes')).get(z64(idx))
    ev = [e for e in c.events() if e.name.startswith('vk')]
    out = fb_state(c) + [('creates at most a framebuffer', z3.BoolVal(names(ev) in ([], ['vkCreateFramebuffer']))), ('none when there is one', Implies(d0.get('frameBuffer') != 0, And(z3.BoolVal(not ev), d.get('frameBuffer') == d0.get('frameBuffer'))))]
    if names(ev) != ['vkCreateFramebuffer']:
        return out
    i = ptrval(ev[0].args['pCreateInfo'])
    at = i.get('pAttachments')
    e = d0.get('renderArea').get('extent')
    return out + [('for the render pass, of the area and layers', And(i.get('renderPass') == d0.get('renderPass'), i.get('width') == e.get('width'), i.get('height') == e.get('height'), i.get('layers') == c.f('m_layers').get())),
                  ('with one view for every attachment', And(at.idx == 0, z64(i.get('attachmentCount')) == at.vec.get().len, at.vec.get().len == d0.get('attachments').len) if hasattr(at, 'vec') else z3.BoolVal(False)),
                  ('it is kept', d.get('frameBuffer') == ev[0].args['pFramebuffer'])]


def fb_state(c):
    E = c.E
    idx = c.av(0) if not z3.is_expr(getattr(c, '_idx', None)) else c._idx
    d, d0 = data_at(c, idx), c.old(c.f('m_passes')).get(z64(idx))
    return same_but(c, idx) + [('only the framebuffer changes', And(*[E.eq_val(d.get(n), d0.get(n)) for n in ('renderPass', 'renderArea', 'attachments', 'clearValues', 'attaches', 'previousState', 'nextState')])), ('it is returned', c.res() == d.get('frameBuffer'))]


def fb_hv(c):
    set_fresh(c, c.f('m_passes'))
    S.caches_havoc(c)
    S.heap_havoc(c, 'crg::GraphContext', 'm_allocated')


FB = dict(requires=lambda c: fb_req(c, c.av(0)), havoc=fb_hv, may_throw=lambda c: TRUE, trace_ok=True, call_ensures=fb_state, emits=lambda c: S.ghost_ret(c, 'framebuffer', c.res(), this=ident(c.this), index=c.av(0)))
contract(HP + 'doCreateFramebuffer', ['P23'], setup=fb_setup(0), ensures=fb_post, loops={0: LoopSpec(fb_inv, iter=fb_iter, label='attachments')}, **FB)


def fb_fwd(c):
    ev = [e for e in c.events() if not e.name.startswith('call:')]
    ok = names(ev) == ['framebuffer']
    return fb_state(c) + [('is that of the index', And(z3.BoolVal(ok), ev[0].args['index'] == c.av(0), same(ev[0].args['this'], ident(c.this))) if ok else z3.BoolVal(False))]


contract(HP + 'getFramebuffer', ['P23'], ensures=fb_fwd, **FB)


# ------------------------------------------------------------------------- begin and end
def begin_info(c, i, idx, fb):
    E = c.E
    d = data_at(c, idx)
    C = d.get('clearValues')
    return [('the render pass, framebuffer and area of the index', And(i.get('renderPass') == d.get('renderPass'), i.get('framebuffer') == fb, E.eq_val(i.get('renderArea'), d.get('renderArea')))),
            ('all its clear values', whole_of(i.get('clearValueCount'), i.get('pClearValues'), C))]


def whole_of(n, p, V):
    P = p.vec.get() if hasattr(p, 'vec') else None
    return And(z64(n) == V.len, p.idx == 0, P.len == V.len, same_at(P, V, lambda k: ULT(k, V.len))) if P is not None else z3.BoolVal(False)


def info_post(c):
    ev = [e for e in c.events() if not e.name.startswith('call:')]
    ok = names(ev) == ['framebuffer']
    if not ok:
        return [('the framebuffer is asked for', z3.BoolVal(False))]
    return [('the framebuffer of the index', ev[0].args['index'] == c.av(0))] + begin_info(c, c.res(), c.av(0), ev[0].ret)


def few_clear(c, idx):
    return [('fewer than 2^32 clear values', ULT(data_at(c, idx).get('clearValues').len, b64(1 << 32)))]


contract(HP + 'getBeginInfo', ['P23'], modular=False, requires=lambda c: fb_req(c, c.av(0)) + few_clear(c, c.av(0)), havoc=fb_hv, may_throw=lambda c: TRUE, trace_ok=True, ensures=info_post)


def track_iter(which):
    def f(c, ev):
        E = c.E
        idx = c.f('m_index').get()
        e = data_at(c, idx).get('attaches').get(c.i0)
        v = resolved(E, e.get('view'), idx)
        iid, vt, r = view_parts(E, v)
        M = c.a(0).field(E, 'm_images').field(E, 'images')
        return [('no command is recorded', z3.BoolVal(not ev)), ('the view of the index is tracked in that layout, nothing else', hrecorded(E, c.b(M), M.get(), iid, virtual_range(E, iid, vt, r), e.get(which)))]
    return f


def begin_pre(c):
    idx = c.av(3)
    return fb_req(c, idx) + few_clear(c, idx) + [('the entries are well-formed', entries_wf(c.E, data_at(c, idx).get('attaches'), idx))]


def begin_inv(c):
    return [('the index is remembered', c.f('m_index').get() == c.entry(c.a(3))), ('instances stay', c.E.eq_val(c.f('m_passes').get(), c.old(c.f('m_passes'))))]


def begin_post(c):
    E = c.E
    ev = [e for e in c.events() if not e.name.startswith('call:')]
    ok = names(ev) == ['loop:attaches', 'framebuffer', 'vkCmdBeginRenderPass']
    out = begin_state(c) + [('the attachments are tracked, then the render pass begins', z3.BoolVal(ok))]
    if ok:
        a = ev[2].args
        out += [('in the command buffer, as asked', And(a['commandBuffer'] == c.av(1), a['contents'] == c.av(2)))] + begin_info(c, ptrval(a['pRenderPassBegin']), c.av(3), ev[1].ret)
    return out


def begin_state(c):
    idx = c.av(3)
    d, d0 = data_at(c, idx), c.old(c.f('m_passes')).get(z64(idx))
    return [('the index is remembered', c.f('m_index').get() == idx)] + same_but(c, idx) + [('only the framebuffer changes', And(*[c.E.eq_val(d.get(n), d0.get(n)) for n in ('renderPass', 'renderArea', 'attachments', 'clearValues', 'attaches', 'previousState', 'nextState')]))]


def begin_hv(c):
    fb_hv(c)
    set_fresh(c, c.f('m_index'))
    set_fresh(c, c.f('m_currentPass'))
    track_hv(c, c.a(0))


contract(HP + 'begin', ['P23'], requires=begin_pre, havoc=begin_hv, may_throw=lambda c: TRUE, trace_ok=True, ensures=begin_post, call_ensures=begin_state,
         emits=lambda c: S.ghost_ev(c, 'begin', this=ident(c.this), context=ident(c.a(0)), cmd=c.av(1), contents=c.av(2), index=c.av(3)),
         loops={0: LoopSpec(begin_inv, iter=track_iter('input'), label='attaches')})


def current(c):
    """between begin and end the current data are those of the index"""
    E = c.E
    return E.addr_of(ElemRef(E, c.f('m_passes'), simp(z64(c.f('m_index').get()))))


def end_setup(c):
    c.f('m_currentPass').set(PtrElem(c.f('m_passes'), simp(z64(c.f('m_index').get()))))


def end_pre(c):
    idx = c.f('m_index').get()
    return in_passes(c, idx) + [('the entries are well-formed', entries_wf(c.E, data_at(c, idx).get('attaches'), idx))]


def end_post(c):
    ev = [e for e in c.events() if not e.name.startswith('call:')]
    ok = names(ev) == ['vkCmdEndRenderPass', 'loop:attaches']
    out = [('the render pass ends, then the attachments are tracked', z3.BoolVal(ok)), ('no current data from then on', c.f('m_currentPass').get() == 0), ('instances stay', c.E.eq_val(c.f('m_passes').get(), c.old(c.f('m_passes'))))]
    if ok:
        out += [('in the command buffer', ev[0].args['commandBuffer'] == c.av(1))]
    return out


def end_hv(c):
    set_fresh(c, c.f('m_currentPass'))
    track_hv(c, c.a(0))


contract(HP + 'end', ['P23'], requires=end_pre, setup=end_setup, havoc=end_hv, trace_ok=True, ensures=end_post, call_ensures=lambda c: [],
         emits=lambda c: S.ghost_ev(c, 'end', this=ident(c.this), context=ident(c.a(0)), cmd=c.av(1)),
         loops={0: LoopSpec(lambda c: [('instances stay', c.E.eq_val(c.f('m_passes').get(), c.old(c.f('m_passes')))), ('the index stays', c.f('m_index').get() == c.old(c.f('m_index')))], iter=track_iter('output'), label='attaches')})


# ------------------------------------------------------------------------- made again exactly when it has to be
def state_of(E, ctx, name):
    return ctx.field(E, name).get()


def init_req(c):
    idx = c.av(2)
    d = data_at(c, idx)
    return in_passes(c, idx) + uses_wf(c, idx) + few_clear(c, idx) + [('the entries are well-formed', entries_wf(c.E, d.get('attaches'), idx))]


def fresh_states(c):
    """the pipeline state before and after, as the context knows it"""
    E = c.E
    return c.old(c.a(0).field(E, 'm_prevPipelineState')), c.old(c.a(0).field(E, 'm_nextPipelineState'))


def init_post(c):
    E = c.E
    idx = c.av(2)
    d0 = c.old(c.f('m_passes')).get(z64(idx))
    M = c.old(c.a(0).field(E, 'm_images').field(E, 'images'))
    p, n = fresh_states(c)
    V = d0.get('attaches')
    k = z3.BitVec('k!in', 64)
    st = lambda a, b: And(a.get('access') == b.get('access'), a.get('pipelineStage') == b.get('pipelineStage'))
    here = And(d0.get('renderPass') != 0, st(d0.get('previousState'), p), st(d0.get('nextState'), n))
    ev = [e for e in c.events() if not e.name.startswith('call:') and e.name != 'checked']
    ch = [e for e in c.events() if e.name == 'checked']
    calm = And(*[e.ret for e in ch]) if ch else z3.BoolVal(False)
    out = init_state(c) + [('says whether it was made again', c.res() == z3.BoolVal(bool(ev)))]
    for e in ch:
        W = e.args['entries']
        out += [('the attachments checked are those it was made for, in the context, for the index', And(e.args['index'] == idx, same(e.args['context'], ident(c.a(0))), W.len == V.len, same_at(W, V, lambda j: ULT(j, V.len))))]
    if not ev:
        out += [('kept only when it is there, and the states before and after are the same', here), ('kept only when its attachments are where they were', calm)]
    else:
        out += [('made again only when one of them is not so', Not(And(here, calm)) if ch else Not(here))]
    if not ev:
        return out + [('nothing changes', And(E.eq_val(c.f('m_passes').get(), c.old(c.f('m_passes'))), E.eq_val(c.a(0).field(E, 'm_images').field(E, 'images').get(), M)))]
    ok = names(ev) == ['passCleanup', 'renderPass', 'renderArea']
    out += [('the one before is destroyed, another is made, then its area', z3.BoolVal(ok))]
    if ok:
        a, b, r = (e.args for e in ev)
        out += [('the one of the index', And(a['renderPass'] == d0.get('renderPass'), a['frameBuffer'] == d0.get('frameBuffer'), b['index'] == idx, r['index'] == idx)), ('in the context, for the pass', And(same(b['context'], ident(c.a(0))), same(b['runnable'], ident(c.a(1))))),
                ('between the states before and after', And(E.eq_val(b['previous'], p), E.eq_val(b['next'], n)))]
    return out


def init_state(c):
    E = c.E
    d = data_at(c, c.av(2))
    return same_but(c, c.av(2)) + few_clear(c, c.av(2)) + [('the entries are well-formed', entries_wf(E, d.get('attaches'), c.av(2)))]


def init_hv(c):
    rp_create_hv_ctx(c, c.a(0))
    set_fresh(c, c.f('m_layers'))


def rp_create_hv_ctx(c, ctx):
    for n in ('m_passes', 'm_blendAttachs', 'm_count'):
        set_fresh(c, c.f(n))
    track_hv(c, ctx)
    S.heap_havoc(c, 'crg::GraphContext', 'm_allocated')


contract(HP + 'initialise', ['P23'], requires=init_req, havoc=init_hv, may_throw=lambda c: TRUE, trace_ok=True, ensures=init_post, call_ensures=init_state,
         emits=lambda c: S.ghost_ret(c, 'rpInit', c.res(), this=ident(c.this), context=ident(c.a(0)), runnable=ident(c.a(1)), index=c.av(2)))


def blend_post(c):
    i = c.res()
    return [('all the blend states', whole_of(i.get('attachmentCount'), i.get('pAttachments'), c.f('m_blendAttachs').get())), ('without logic operation', i.get('logicOpEnable') == 0)]


contract(HP + 'createBlendState', ['P23'], modular=False, requires=lambda c: [('fewer than 2^32 blend states', ULT(c.f('m_blendAttachs').get().len, b64(1 << 32)))], ensures=blend_post)


# ------------------------------------------------------------------------- start and end of life
def no_data(E, V, i):
    k = z3.BitVec('k!nd', 64)
    z = lambda d: And(d.get('renderPass') == 0, d.get('frameBuffer') == 0, d.get('attaches').len == 0, d.get('clearValues').len == 0, d.get('attachments').len == 0)
    return ForAll([k], Implies(ULT(k, i), z(V.get(k))))


contract(HP + 'RenderPassHolder', ['P23'], np=5, key=HP + 'RenderPassHolder', modular=False,
         ensures=lambda c: [('one for every instance, none made yet', And(c.f('m_passes').get().len == z64(c.av(3)), no_data(c.E, c.f('m_passes').get(), z64(c.av(3))))),
                            ('of the size given', c.E.eq_val(c.f('m_size').get(), c.av(4))), ('no current one', c.f('m_currentPass').get() == 0), ('no command', z3.BoolVal(not [e for e in c.events() if e.name.startswith('vk')]))])


def dtor_iter(c, ev):
    d = c.b(c.f('m_passes')).get(c.i0)
    n = [e for e in ev if not e.name.startswith('call:')]
    ok = names(n) == ['passCleanup']
    return [('each is destroyed', z3.BoolVal(ok))] + ([('with its framebuffer', And(n[0].args['renderPass'] == d.get('renderPass'), n[0].args['frameBuffer'] == d.get('frameBuffer')))] if ok else [])


contract(HP + '~RenderPassHolder', ['P23'], modular=False, trace_ok=True,
         ensures=lambda c: [('every instance is destroyed, nothing else', z3.BoolVal([e.name for e in c.events() if not e.name.startswith('call:')] == ['loop:passes']))],
         loops={0: LoopSpec(lambda c: [('as many as before, those to come stay', And(c.f('m_passes').get().len == c.old(c.f('m_passes')).len, same_at(c.f('m_passes').get(), c.old(c.f('m_passes')), lambda k: And(ULE(c.i, k), ULT(k, c.f('m_passes').get().len)))))], iter=dtor_iter, label='passes')})


# ------------------------------------------------------------------------- a pass that draws
def hold_pre(c, h):
    """the holder of the pass: instances, declared uses and entries"""
    E = c.E
    idx = c.av(2)
    V = h.field(E, 'm_passes').get()
    d = V.get(z64(idx))
    P = S.obj(c, h, 'm_pass', 'crg::FramePass').field(E, 'images').get()
    k = z3.BitVec('k!aw', 64)
    return [('the index is one of the instances', ULT(z64(idx), V.len)), ('fewer than 2^31 declared uses', ULT(P.len, b64(1 << 31))), ('every declared use is well-formed', ForAll([k], Implies(ULT(k, P.len), att_any(E, P.get(k), idx)))),
            ('the entries are well-formed', entries_wf(E, d.get('attaches'), idx)), ('fewer than 2^32 clear values', ULT(d.get('clearValues').len, b64(1 << 32)))]


def pass_record(c):
    E = c.E
    ev = [e for e in c.events() if not e.name.startswith('call:log') and e.name != 'framebuffer']
    cbs = c.f('m_rpCallbacks').get()
    fn = lambda n: E.to_term(cbs.get(n), E.T.field_ty(cbs.ty.name, n)) if not z3.is_expr(cbs.get(n)) else cbs.get(n)
    n = names(ev)
    ok = len(n) in (4, 5) and n[0] == 'rpInit' and n[-3] == 'begin' and n[-2].startswith('call:') and n[-1] == 'end'
    out = [('the render pass is prepared, begun, recorded into and ended', z3.BoolVal(ok))]
    if not ok:
        return out
    i, b, r, e = ev[0], ev[-3], ev[-2], ev[-1]
    h = ident(c.f('m_holder'))
    ctx, cb, idx = ident(c.a(0)), c.av(1), c.av(2)
    out += [('the callback is told exactly when it was made again', i.ret == z3.BoolVal(len(n) == 5)), ('of the index, in the context, for the pass', And(i.args['index'] == idx, same(i.args['context'], ctx), same(i.args['runnable'], ident(c.this)))),
            ('begun in the command buffer, for the index', And(b.args['cmd'] == cb, b.args['index'] == idx, same(b.args['context'], ctx))), ('what is recorded is what the callback records, for the index', And(r.args['fn'] == fn('record'), r.args['a1'] == cb, r.args['a2'] == idx, same(ident(r.args['a0']), ctx))),
            ('ended in the command buffer', And(e.args['cmd'] == cb, same(e.args['context'], ctx)))]
    if len(n) == 5:
        out += [('with the index', And(ev[1].args['fn'] == fn('initialise'), ev[1].args['a0'] == idx))]
    return out


contract('crg::RenderPass::doRecordInto', ['P23'], modular=False, trace_ok=True, may_throw=lambda c: TRUE, requires=lambda c: hold_pre(c, c.f('m_holder')), ensures=pass_record)
