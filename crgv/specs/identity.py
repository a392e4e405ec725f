"""Identities and descriptions of the images and views of a graph, and what is declared about them (P11)."""
from .common import *
from .layout import *
from .handlers import *
from .barriers import ghost
from .resources import iid_of, others, unchanged
from . import submit as S
from .submit import set_fresh, ident
from .passes import same

RHN = 'crg::ResourceHandler::'
FG = 'crg::FrameGraph::'


# ------------------------------------------------------------------------- identities
def known(c, m, old=False):
    r = c.f(m)
    return c.old(r) if old else r.get()


def numbered(M):
    """identities are numbered from 1, and designate descriptions"""
    k = z3.BitVec('k!nb', 32)
    return ForAll([k], Implies(M.has(k), And(k != 0, ULE(z64(k), M.size), M.keyval(k).get('data') != 0, S.ptrval(M.at(k)) == M.keyval(k).get('data'))))


def ids_pre(m):
    return lambda c: [('identities are numbered from 1, and designate descriptions', numbered(known(c, m))), ('there is room for more', ULT(known(c, m).size, b64(0xfffffff0)))]


def said(E, d, p, fields):
    return And(*[E.eq_val(d.field(E, n).get(), p.field(E, n).get()) for n in fields])


def image_of(E, res):
    return HeapObj(E, 'crg::ImageData', res.get('data'))


def new_one(c, m, cls, fields):
    E = c.E
    M0, M1, r = known(c, m, True), known(c, m), c.res()
    k = r.get('id')
    return [('it has an identity that nothing had', And(k != 0, Not(M0.has(k)), M1.has(k))), ('the others stay', others(M0, M1, k)), ('and are still numbered', numbered(M1)),
            ('it designates a description', And(r.get('data') != 0, M1.keyval(k).get('data') == r.get('data'))),
            ('which is the one given', said(E, HeapObj(E, cls, r.get('data')), c.a(0), fields))]


def ids_hv(m):
    return lambda c: set_fresh(c, c.f(m))


IMG, VIEW = ('name', 'info'), ('name', 'image', 'info', 'source')
contract(RHN + 'createImageId', ['P11'], np=1, requires=ids_pre('m_imageIds'), havoc=ids_hv('m_imageIds'), ensures=lambda c: new_one(c, 'm_imageIds', 'crg::ImageData', IMG),
         call_ensures=lambda c: [], emits=lambda c: ghost(c, 'imageId', c.res(), handler=ident(c.this), data=c.a(0)))


def alike(E, d, p, get=lambda r: r.get()):
    """descriptions of the same view of the same image, whatever its name"""
    i, j = get(d.field(E, 'info')), p.field(E, 'info').get()
    return And(get(d.field(E, 'image')).get('id') == p.field(E, 'image').get().get('id'), *[E.eq_val(i.get(n), j.get(n)) for n in ('flags', 'viewType', 'format', 'components', 'subresourceRange')])


def at_key(E, M, k):
    return HeapObj(E, 'crg::ImageViewData', S.ptrval(M.at(k)))


def view_id(c):
    E = c.E
    M0, M1, r = known(c, 'm_imageViewIds', True), known(c, 'm_imageViewIds'), c.res()
    k = r.get('id')
    q = z3.BitVec('k!vi', 32)
    new = Not(M0.has(k))
    none = ForAll([q], Implies(M0.has(q), Not(alike(E, at_key(E, M0, q), c.a(0), c.old))))
    return [('it designates a description', And(r.get('data') != 0, k != 0)), ('of that view', alike(E, HeapObj(E, 'crg::ImageViewData', r.get('data')), c.a(0))),
            ('it is known from now on', M1.has(k)), ('a new identity is only made when no view is alike', Implies(new, none)), ('an identity that was there stays as it was', Implies(Not(new), unchanged(M0, M1))),
            ('the others stay', others(M0, M1, k)), ('and are still numbered', numbered(M1)),
            ('a new one has the description given', Implies(new, said(E, HeapObj(E, 'crg::ImageViewData', r.get('data')), c.a(0), VIEW)))]


contract(RHN + 'createViewId', ['P11'], np=1, requires=ids_pre('m_imageViewIds'), havoc=ids_hv('m_imageViewIds'), ensures=view_id,
         call_ensures=lambda c: [], emits=lambda c: ghost(c, 'viewId', c.res(), handler=ident(c.this), data=c.a(0)))


def declared(ev, m):
    def f(c):
        E = c.E
        e = c.events()
        ok = S.names(e) == [ev]
        out = [('asked of the resources of the graph, once', z3.BoolVal(ok))]
        if not ok:
            return out
        M0, M1, r = known(c, m, True), known(c, m), c.res()
        k = r.get('id')
        return out + [('what is returned', And(E.eq_val(r, e[0].ret))), ('for the description given', same_place(e[0].args['data'], c.a(0))),
                      ('it belongs to the graph', M1.has(k)), ('the others stay', others_set(M0, M1, k))]
    return f


def same_place(a, b):
    return z3.BoolVal(True) if a is b else (same(ident(a), ident(b)))


def others_set(M0, M1, k):
    q = z3.BitVec('k!os', 32)
    return ForAll([q], Implies(q != k, M1.has(q) == M0.has(q)))


def ids_of(c, m):
    return HeapObj(c.E, 'crg::ResourceHandler', c.f('m_handler').get()).field(c.E, m)


def fg_pre(m):
    def f(c):
        M = ids_of(c, m).get()
        return [('identities are numbered from 1, and designate descriptions', numbered(M)), ('there is room for more', ULT(M.size, b64(0xfffffff0)))]
    return f


def fg_hv(own, m):
    def f(c):
        set_fresh(c, c.f(own))
        set_fresh(c, ids_of(c, m))
    return f


contract(FG + 'createImage', ['P11'], np=1, trace_ok=True, requires=fg_pre('m_imageIds'), havoc=fg_hv('m_images', 'm_imageIds'), ensures=declared('imageId', 'm_images'), call_ensures=lambda c: [], emits=lambda c: ghost(c, 'declareImage', c.res(), graph=ident(c.this), data=c.a(0)))
contract(FG + 'createView', ['P11'], np=1, trace_ok=True, requires=fg_pre('m_imageViewIds'), havoc=fg_hv('m_imageViews', 'm_imageViewIds'), ensures=declared('viewId', 'm_imageViews'), call_ensures=lambda c: [], emits=lambda c: ghost(c, 'declareView', c.res(), graph=ident(c.this), data=c.a(0)))


# ------------------------------------------------------------------------- queries
def q_img(field):
    return lambda c: [('what was declared', c.E.eq_val(c.res(), img_info(c.E, c.av(0)).get(field)))]


def q_view(get):
    return lambda c: [('what was declared', c.E.eq_val(c.res(), get(c.E, view_data(c.E, c.av(0)))))]


im_pre = lambda c: [('the image exists', c.av(0).get('data') != 0)]
v_pre = lambda c: [('the view exists', c.av(0).get('data') != 0), ('its image exists', view_data(c.E, c.av(0)).field(c.E, 'image').get().get('data') != 0)]
of_image = lambda field: (lambda E, d: img_info(E, d.field(E, 'image').get()).get(field))
of_range = lambda field: (lambda E, d: d.field(E, 'info').get().get('subresourceRange').get(field))
for _n, _f, _v in (('getExtent', 'extent', of_image('extent')), ('getFormat', 'format', lambda E, d: d.field(E, 'info').get().get('format')), ('getImageType', 'imageType', of_image('imageType')),
                   ('getMipLevels', 'mipLevels', of_range('levelCount')), ('getArrayLayers', 'arrayLayers', of_range('layerCount'))):
    contract('crg::' + _n, ['P11'], np=1, sub='ImageId', key='crg::%s(image)' % _n, modular=False, requires=im_pre, ensures=q_img(_f))
    contract('crg::' + _n, ['P11'], np=1, sub='ImageViewId', key='crg::%s(view)' % _n, modular=False, requires=v_pre, ensures=q_view(_v))


def mip_extent(c):
    E = c.E
    d = view_data(E, c.av(0))
    e = img_info(E, d.field(E, 'image').get()).get('extent')
    l = d.field(E, 'info').get().get('subresourceRange').get('baseMipLevel')
    r = c.res()
    half = lambda x: If(z3.LShR(x, l) == 0, b32(1), z3.LShR(x, l))
    return [('the extent of the first level of the view, at least one texel', And(*[r.get(n) == half(e.get(n)) for n in ('width', 'height', 'depth')]))]


contract('crg::getMipExtent', ['P11'], np=1, modular=False, requires=lambda c: v_pre(c) + [('a mip level exists', lvl_ok(view_data(c.E, c.av(0)).field(c.E, 'info').get().get('subresourceRange')))], ensures=mip_extent)

# ------------------------------------------------------------------------- what the graph is given and has to leave
for _n, _m in (('Input', 'm_inputs'), ('Output', 'm_outputs')):
    mk_set4(FG + 'add' + _n, [_m, 'images'], ['P11'])
    mk_set2(FG + 'add' + _n, [_m, 'images'], ['P11'])
    mk_get3(FG + 'get%sLayoutState' % _n, [_m, 'images'], ['P11'])
    mk_get1(FG + 'get%sLayoutState' % _n, [_m, 'images'], ['P11'])
mk_get3(FG + 'getFinalLayoutState', ['m_finalState', 'm_images', 'images'], ['P11'])



# ------------------------------------------------------------------------- merged views
FLD = ('image', 'name')
INF = ('components', 'flags', 'format')


def mdata(c):
    return c.by_type(lambda t: t.k == 'struct' and t.name == 'crg::ImageViewData')


def part(E, V, j):
    return view_data(E, V.get(j))


def same_rest(E, m, d):
    """what a merged view takes from its first part"""
    i, j = m.field(E, 'info').get(), d.field(E, 'info').get()
    return And(E.eq_val(m.field(E, 'image').get(), d.field(E, 'image').get()), *[E.eq_val(i.get(n), j.get(n)) for n in INF])


def rng_of(i):
    return i.get('subresourceRange')


def dims(merge):
    return (('levels', 'baseMipLevel', 'levelCount', merge(1)), ('layers', 'baseArrayLayer', 'layerCount', merge(2)))


def merge_inv(c):
    E, V = c.E, c.av(0)
    i, m = c.i, mdata(c)
    src = m.field(E, 'source').get()
    j = z3.BitVec('j!mv', 64)
    info = m.field(E, 'info').get()
    r = rng_of(info)
    some = i != 0
    d0 = part(E, V, b64(0))
    inside = lambda base, cnt: z3.ForAll([j], Implies(ULT(j, i), And(ULE(r.get(base), rng_of(part(E, V, j).field(E, 'info').get()).get(base)),
                                                                        ULE(fin(rng_of(part(E, V, j).field(E, 'info').get()), base, cnt), fin(r, base, cnt)))))
    out = [('nothing taken yet', Implies(Not(some), And(m.field(E, 'image').get().get('id') == 0, r.get('layerCount') == 0))),
           ('what is taken from the first part', Implies(some, same_rest(E, m, d0))), ('its kind too', Implies(some, info.get('viewType') == d0.field(E, 'info').get().get('viewType'))),
           ('the aspect too', Implies(some, r.get('aspectMask') == rng_of(d0.field(E, 'info').get()).get('aspectMask'))),
           ('the parts so far', And(src.len == i, z3.ForAll([j], Implies(ULT(j, i), E.eq_val(src.get(j), V.get(j))))))]
    for nm, base, cnt, mg in dims(lambda k: c.av(k)):
        out += [('the %s of the parts so far are covered' % nm, Implies(And(some, mg), inside(base, cnt))), ('the %s fit' % nm, Implies(some, And(ULT(r.get(base), TOP), ULT(r.get(cnt), TOP), r.get(cnt) != 0, ULT(fin(r, base, cnt), TOP))))]
    return out


TOP = b32(1 << 24)


def fin(r, base, cnt):
    return r.get(base) + r.get(cnt)


def umin(a, b):
    return If(ULE(a, b), a, b)


def umax(a, b):
    return If(ULE(a, b), b, a)


def merge_iter(c, events):
    """the range grows to what it was and the part, no further"""
    E, V = c.E, c.av(0)
    r0, r1 = rng_of(c.b(mdata(c).field(E, 'info'))), rng_of(mdata(c).field(E, 'info').get())
    p = rng_of(part(E, V, c.i0).field(E, 'info').get())
    out = []
    for nm, base, cnt, mg in dims(lambda k: c.av(k)):
        first = And(r1.get(base) == p.get(base), r1.get(cnt) == p.get(cnt))
        more = And(r1.get(base) == umin(r0.get(base), p.get(base)), If(mg, fin(r1, base, cnt) == umax(fin(r0, base, cnt), fin(p, base, cnt)), r1.get(cnt) == 1))
        out.append(('the %s are those of the parts so far' % nm, If(c.i0 == 0, first, more)))
    return out


def merge_pre(c):
    E, V = c.E, c.av(0)
    j = z3.BitVec('j!mp', 64)
    d = part(E, V, j)
    r = rng_of(d.field(E, 'info').get())
    M = HeapObj(E, 'crg::ResourceHandler', HeapObj(E, 'crg::FrameGraph', graph_of(c)).field(E, 'm_handler').get()).field(E, 'm_imageViewIds').get()
    return [('there is a part', V.len != 0), ('the parts are views of one image', ForAll([j], Implies(ULT(j, V.len), And(V.get(j).get('data') != 0, d.field(E, 'image').get().get('id') != 0,
             d.field(E, 'image').get().get('data') != 0, E.eq_val(d.field(E, 'image').get(), part(E, V, b64(0)).field(E, 'image').get()))))),
            ('the parts are within an image', ForAll([j], Implies(ULT(j, V.len), And(*[ULT(r.get(n), TOP) for n in ('baseMipLevel', 'levelCount', 'baseArrayLayer', 'layerCount')], r.get('levelCount') != 0, r.get('layerCount') != 0, ULT(fin(r, 'baseMipLevel', 'levelCount'), TOP), ULT(fin(r, 'baseArrayLayer', 'layerCount'), TOP))))),
            ('identities are numbered from 1, and designate descriptions', numbered(M)), ('there is room for more', ULT(M.size, b64(0xfffffff0)))]


def graph_of(c):
    return c.f('graph').get()


def merge_post(c):
    E, V = c.E, c.av(0)
    e = c.events()
    seg = [x for x in e if x.name == 'declareView']
    ok = len(seg) == 1 and S.names(e)[-1] == 'declareView'
    out = [('one view is declared, last', z3.BoolVal(ok))]
    if not ok:
        return out
    m = seg[0].args['data']
    d0 = part(E, V, b64(0))
    info, info0 = m.field(E, 'info').get(), d0.field(E, 'info').get()
    r, t, t0 = rng_of(info), info.get('viewType'), info0.get('viewType')
    flags = img_info(E, d0.field(E, 'image').get()).get('flags')
    n = r.get('layerCount')
    K = lambda v: b32(v)
    cube = And(flags & 0x10 != 0, z3.URem(n, b32(6)) == 0, r.get('baseArrayLayer') == 0)
    many = If(t0 == K(0), K(4), If(t0 == K(1), If(cube, If(UGT(n, b32(6)), K(6), K(3)), K(5)), If(And(t0 == K(3), UGT(n, b32(6))), K(6), t0)))
    return out + [('it is what is returned', E.eq_val(c.res(), seg[0].ret)), ('declared in the graph of the pass', seg[0].args['graph'] == graph_of(c)),
                  ('image, format, swizzle of the first part', same_rest(E, m, d0)), ('its kind tells whether it has several layers', t == If(UGT(n, b32(1)), many, t0)),
                  ] + [(k, v) for k, v in parts_post(c, m, V, r)]


def parts_post(c, m, V, r):
    E = c.E
    src = m.field(E, 'source').get()
    j = z3.BitVec('j!po', 64)
    q = rng_of(part(E, V, j).field(E, 'info').get())
    out = [('its parts are those given', And(src.len == V.len, ForAll([j], Implies(ULT(j, V.len), E.eq_val(src.get(j), V.get(j))))))]
    for nm, base, cnt, mg in dims(lambda k: c.av(k)):
        out.append(('it covers the %s of its parts' % nm, Implies(mg, ForAll([j], Implies(ULT(j, V.len), And(ULE(r.get(base), q.get(base)), ULE(fin(q, base, cnt), fin(r, base, cnt))))))))
    return out


def merge_hv(c):
    g = HeapObj(c.E, 'crg::FrameGraph', graph_of(c))
    set_fresh(c, g.field(c.E, 'm_imageViews'))
    set_fresh(c, HeapObj(c.E, 'crg::ResourceHandler', g.field(c.E, 'm_handler').get()).field(c.E, 'm_imageViewIds'))


contract('crg::FramePass::mergeViews', ['P11'], np=3, trace_ok=True, modular=False, ematch=True, requires=merge_pre, havoc=merge_hv, ensures=merge_post, call_ensures=lambda c: [], loops={0: LoopSpec(merge_inv, iter=merge_iter)})
