"""Layout-state handlers and the record context (P01), image and buffer barriers (P02, P03)"""
from .common import *
from .layout import *

IMG3D = 'VK_IMAGE_VIEW_TYPE_3D'


def deref(E, ptrterm, cls):
    return HeapObj(E, cls, ptrterm)


def img_info(E, iid):
    """creation info of an image id (a pointer to its description)"""
    return deref(E, iid.get('data'), 'crg::ImageData').field(E, 'info').get()


def view_data(E, vid):
    return deref(E, vid.get('data'), 'crg::ImageViewData')


def virtual_range(E, iid, vt, r):
    """the subresources a view covers: a 3D view of one or all levels covers every depth slice of its base level, at least one"""
    info = img_info(E, iid)
    d = info.get('extent').get('depth')
    s = z3.LShR(d, r.get('baseMipLevel'))
    vol = And(vt == K32(E, IMG3D), Or(r.get('levelCount') == 1, r.get('levelCount') == info.get('mipLevels')))
    n = If(UGE(r.get('baseMipLevel'), 32), b32(1), If(s == 0, b32(1), s))
    return r.with_('baseArrayLayer', simp(If(vol, b32(0), r.get('baseArrayLayer')))).with_('layerCount', simp(If(vol, n, r.get('layerCount'))))


def img_ok(E, iid):
    """what a created image id guarantees"""
    return And(iid.get('data') != 0, iid.get('id') != 0)


def lvl_ok(r):
    return ULT(r.get('baseMipLevel'), 32)


contract('crg::getVirtualRange', ['P01'], np=3, modular=False,
         requires=lambda c: [('a mip level exists', lvl_ok(c.av(2)))],
         ensures=lambda c: [('a 3D view covers the depth slices of its level, at least one; other views cover what they say',
                             c.E.eq_val(c.res(), virtual_range(c.E, c.av(0), c.av(1), c.av(2))))])


def hstate(M, i, l, m):
    return M.at(i).at(l).at(m)


def htracked(M, i, l, m):
    return And(M.has(i), M.at(i).has(l), M.at(i).at(l).has(m))


def hrecorded(E, M0, M1, iid, r, new):
    """M1 is M0 with `new` recorded for exactly the subresources r of image iid"""
    i, l, m = z3.BitVecs('i!h l!h m!h', 32)
    inr = And(i == iid.get('id'), in_range(r, l, m))
    return ForAll([i, l, m], And(
        Implies(inr, And(htracked(M1, i, l, m), st_eq(E, hstate(M1, i, l, m), new))),
        Implies(Not(inr), And(htracked(M1, i, l, m) == htracked(M0, i, l, m),
                              Implies(htracked(M0, i, l, m), st_eq(E, hstate(M1, i, l, m), hstate(M0, i, l, m)))))))


def hread(E, M, iid, r):
    """value read from the image's tracked states (READ is the verified reading function), or the never-recorded state"""
    got = rd(E, M.at(iid.get('id')), r)
    none = E.from_term(z3.Const('never!state', E.T.sort(LSTATE)), LSTATE)
    return got, M.has(iid.get('id'))


def is_never(E, s):
    return And(s.get('layout') == K32(E, 'VK_IMAGE_LAYOUT_UNDEFINED'), s.get('state').get('access') == 0,
               s.get('state').get('pipelineStage') == K32(E, 'VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT'))


def read_is(E, res, M, iid, vt, r):
    vr = virtual_range(E, iid, vt, r)
    got, has = hread(E, M, iid, vr)
    return And(Implies(has, st_eq(E, res, got)), Implies(Not(has), is_never(E, res)))


def mapref(c, path):
    r = c.this
    for p in path:
        r = r.field(c.E, p)
    return r


def mk_set4(qn, path, props):
    contract(qn, props, np=4,
             requires=lambda c: [('the image exists', img_ok(c.E, c.av(0))), ('the range does not wrap', nowrap(c.av(2))), ('a mip level exists', lvl_ok(c.av(2)))],
             havoc=lambda c: mapref(c, path).set(c.E.fresh(mapref(c, path).ty, 'images')),
             ensures=lambda c: [('the state is recorded for exactly the subresources covered, of that image only',
                                 hrecorded(c.E, c.old(mapref(c, path)), mapref(c, path).get(), c.av(0), virtual_range(c.E, c.av(0), c.av(1), c.av(2)), c.av(3)))])


def view_parts(E, vid):
    d = view_data(E, vid)
    info = d.field(E, 'info').get()
    return d.field(E, 'image').get(), info.get('viewType'), info.get('subresourceRange')


def view_req(c, i=0):
    E = c.E
    v = c.av(i)
    iid, vt, r = view_parts(E, v)
    return [('the view exists', v.get('data') != 0), ('the view is not a merged one', view_data(E, v).field(E, 'source').get().len == 0),
            ('the image exists', img_ok(E, iid)), ('the range does not wrap', nowrap(r)), ('a mip level exists', lvl_ok(r))]


def mk_set2(qn, path, props):
    def ens(c):
        iid, vt, r = view_parts(c.E, c.av(0))
        return [('the state is recorded for exactly the subresources of the view, of its image only',
                 hrecorded(c.E, c.old(mapref(c, path)), mapref(c, path).get(), iid, virtual_range(c.E, iid, vt, r), c.av(1)))]
    contract(qn, props, np=2, key=qn + '(view)',
             requires=view_req, havoc=lambda c: mapref(c, path).set(c.E.fresh(mapref(c, path).ty, 'images')), ensures=ens)


def mk_get3(qn, path, props, key=None):
    contract(qn, props, np=3, key=key or qn,
             requires=lambda c: [('the image exists', img_ok(c.E, c.av(0))), ('the range does not wrap', nowrap(c.av(2))), ('a mip level exists', lvl_ok(c.av(2)))],
             ensures=lambda c: [('what is read is what the image\'s own states say, or never-recorded', read_is(c.E, c.res(), mapref(c, path).get(), c.av(0), c.av(1), c.av(2)))])


def mk_get1(qn, path, props):
    def ens(c):
        iid, vt, r = view_parts(c.E, c.av(0))
        return [('what is read is what the image\'s own states say, or never-recorded', read_is(c.E, c.res(), mapref(c, path).get(), iid, vt, r))]
    contract(qn, props, np=1, key=qn + '(view)', requires=view_req, ensures=ens, result=lambda c: as_value(c, path) if c.E.quant_depth > 0 else None)


def as_value(c, path):
    """the value that the postcondition determines, for use inside a quantifier"""
    E = c.E
    iid, vt, r = view_parts(E, c.av(0))
    got, has = hread(E, mapref(c, path).get(), iid, virtual_range(E, iid, vt, r))
    st = E.T.field_ty('crg::LayoutState', 'state')
    never = E.zero(LSTATE).with_('layout', K32(E, 'VK_IMAGE_LAYOUT_UNDEFINED')).with_('state', E.zero(st).with_('access', b32(0)).with_('pipelineStage', K32(E, 'VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT')))
    return E.from_term(If(has, E.to_term(got, LSTATE), E.to_term(never, LSTATE)), LSTATE)


H = 'crg::LayerLayoutStatesHandler::'
R = 'crg::RecordContext::'
mk_set4(H + 'setLayoutState', ['images'], ['P01'])
mk_set2(H + 'setLayoutState', ['images'], ['P01'])
mk_get3(H + 'getLayoutState', ['images'], ['P01'])
mk_get1(H + 'getLayoutState', ['images'], ['P01'])
mk_set4(R + 'setLayoutState', ['m_images', 'images'], ['P01'])
mk_set2(R + 'setLayoutState', ['m_images', 'images'], ['P01'])
mk_get3(R + 'getLayoutState', ['m_images', 'images'], ['P01'])
mk_get1(R + 'getLayoutState', ['m_images', 'images'], ['P01'])
mk_get3(R + 'getNextLayoutState', ['m_nextImages', 'images'], ['P01'])
mk_get1(R + 'getNextLayoutState', ['m_nextImages', 'images'], ['P01'])


# ---- merging the states of another handler: what is already known wins
def merged(E, M0, A, M1, upto=None):
    i = z3.BitVec('i!mg', 32)
    inA = A.has(i) if upto is None else And(A.has(i), z3.Select(upto, i))
    srt = E.T.sort(M0.ty.b)
    val = lambda M: E.to_term(M.at(i), M0.ty.b)
    return ForAll([i], And(M1.has(i) == Or(M0.has(i), inA),
                           Implies(M0.has(i), val(M1) == val(M0)),
                           Implies(And(Not(M0.has(i)), inA), val(M1) == val(A))))


contract(H + 'addStates', ['P01'], np=1,
         havoc=lambda c: c.f('images').set(c.E.fresh(c.f('images').ty, 'images')),
         ensures=lambda c: [('images already known keep their states, the others are copied',
                             merged(c.E, c.old(c.f('images')), c.old(c.a(0).field(c.E, 'images')), c.f('images').get()))],
         loops={0: LoopSpec(lambda c: [('merged so far', merged(c.E, c.entry(c.this.field(c.E, 'images')), c.entry(c.a(0).field(c.E, 'images')), c.this.field(c.E, 'images').get(), c.visited)),
                                       ('the source is untouched', Or(c.this.addr == c.a(0).addr, c.E.eq_val(c.a(0).field(c.E, 'images').get(), c.entry(c.a(0).field(c.E, 'images')))))])})
