"""Generating the mip levels of an image (P13)."""
from .common import *
from .layout import *
from .handlers import *
from .attachments import one
from .tables import is_layout_state
from . import submit as S
from .submit import names, ptrval, ident
from .passes import pass_of, att_wf, same
from .commands import SRC, DST, uses, view_of, has_use, IDX, copy_hv
from .barriers import view_pre


def parts(c, idx):
    """image, view type and range of the view of the index"""
    return view_parts(c.E, view_of(c.E, uses(c, 'images').get(b64(0)), idx))


def info(c, idx):
    return img_info(c.E, parts(c, idx)[0])


def pre(c):
    E = c.E
    n = has_use('images', False, IDX)(c)
    iid, vt, r = parts(c, IDX(c))
    i = info(c, IDX(c))
    top = b32(0x7fffffff)
    d = view_data(E, view_of(E, uses(c, 'images').get(b64(0)), IDX(c)))
    return n + [('the view is not a merged one', d.field(E, 'source').get().len == 0),
                ('the image has between 1 and 31 levels', And(UGE(i.get('mipLevels'), b32(1)), ULE(i.get('mipLevels'), b32(31)))),
                ('its extents fit the device', And(*[ULE(i.get('extent').get(n), top) for n in ('width', 'height', 'depth')])),
                ('the layers of the view are those of the image', And(ULE(r.get('baseArrayLayer') + r.get('layerCount'), i.get('arrayLayers')), ULE(r.get('baseArrayLayer'), i.get('arrayLayers')), ULE(r.get('layerCount'), i.get('arrayLayers')), ULT(i.get('arrayLayers'), b32(1 << 24))))]


def dim(e, level):
    s = z3.LShR(e, level)
    return If(s == 0, b32(1), s)


def whole(lo, hi, ext, level):
    """the box of a whole level"""
    return And(*[lo.get(n) == 0 for n in 'xyz'], *[hi.get(a) == dim(ext.get(b), level) for a, b in zip('xyz', ('width', 'height', 'depth'))])


def is_level(s, aspect, level, layer):
    return And(s.get('aspectMask') == aspect, s.get('mipLevel') == level, s.get('baseArrayLayer') == layer, s.get('layerCount') == 1)


def covers(r, aspect, level, layer):
    return And(r.get('aspectMask') == aspect, r.get('baseMipLevel') == level, r.get('levelCount') == 1, r.get('baseArrayLayer') == layer, r.get('layerCount') == 1)


def loc(c, name):
    return c.by_type(lambda t: t.k == 'struct' and t.name == name)


def state(c):
    """level reached, layer and blit built so far, by the locals that hold them"""
    return loc(c, 'VkImageSubresourceRange'), loc(c, 'VkImageBlit')


def blit_inv(c, level, layer, aspect, ext, g):
    at = lambda i: g.get('dstOffsets').get(b64(i))
    return [('the destination of the next blit is the level reached', And(is_level(g.get('dstSubresource'), aspect, level, layer), whole(at(0), at(1), ext, level)))]


def aspect_of(c, i):
    from .tables import aspect
    return aspect(c.E, i.get("format"))


def lv_inv(c):
    idx = c.entry_arg(2)
    i = info(c, idx)
    r, g = [x.get() for x in state(c)]
    asp = aspect_of(c, i)
    L = r.get('baseMipLevel')
    lay = c.old(loc(c, 'VkImageSubresourceRange')).get('baseArrayLayer')
    return [('levels in order', ULT(L, i.get('mipLevels'))), ('one level of one layer', And(covers(r, asp, L, r.get('baseArrayLayer')), r.get('baseArrayLayer') == lay))] + blit_inv(c, L, lay, asp, i.get('extent'), g)


def wanted_next(c):
    q = [e for e in c.E.S.trace if e.name == 'next']
    return q[0].args['res'] if len(q) == 1 else None


def moved(c, e, level, layer, to):
    E = c.E
    idx = c.entry_arg(2)
    iid, _, r = parts(c, idx)
    i = info(c, idx)
    a = e.args
    base = And(a['cmd'] == c.entry_arg(1), same(a['this'], ident(c.a(0))), E.eq_val(a['image'], iid), covers(a['range'], aspect_of(c, i), level, layer), a['viewType'] == i.get('imageType'))
    if not isinstance(to, str):
        return And(base, E.eq_val(a['wanted'], to))
    w = a['wanted']
    acc = K32(E, 'VK_ACCESS_TRANSFER_READ_BIT' if to == SRC else 'VK_ACCESS_TRANSFER_WRITE_BIT')
    # the accesses and stages of that layout: by the tables (P04), or as those tables have them
    return And(base, Or(is_layout_state(E, w, K32(E, to)), And(w.get('layout') == K32(E, to), w.get('state').get('access') == acc, w.get('state').get('pipelineStage') == K32(E, 'VK_PIPELINE_STAGE_TRANSFER_BIT'))))


def lv_iter(c, ev):
    E = c.E
    idx = c.entry_arg(2)
    i = info(c, idx)
    iid, _, r = parts(c, idx)
    out = [('a level is made ready, blitted, then its source and itself move on', z3.BoolVal(names(ev) == ['imageBarrier', 'vkCmdBlitImage', 'imageBarrier', 'imageBarrier']))]
    im = [e for e in E.S.trace if e.name == 'createImage']
    nx = wanted_next(c)
    out += [('the image and what is wanted next are looked up', z3.BoolVal(len(im) == 1 and nx is not None))]
    if not all(z3.is_true(g) for _, g in out):
        return out
    k = c.b(loc(c, 'VkImageSubresourceRange')).get('baseMipLevel')        # the level of this round
    lay = c.b(loc(c, 'VkImageSubresourceRange')).get('baseArrayLayer')
    asp, ext = aspect_of(c, i), i.get('extent')
    a = ev[1].args
    g = ptrval(a['pRegions'])
    so, do = g.get('srcOffsets'), g.get('dstOffsets')
    at = lambda v, j: v.get(b64(j))
    last = k == i.get('mipLevels') - 1
    out += [('the next level', And(k == state(c)[0].get().get('baseMipLevel'), k != 0)),
            ('the level is made ready to be written', moved(c, ev[0], k, lay, DST)),
            ('one region', And(a['regionCount'] == 1, a['commandBuffer'] == c.entry_arg(1), a['filter'] == K32(E, 'VK_FILTER_LINEAR'))),
            ('within the image of the view of the index', And(E.eq_val(im[0].args['image'], iid), a['srcImage'] == im[0].ret, a['dstImage'] == im[0].ret)),
            ('in the layouts of a transfer', And(a['srcImageLayout'] == K32(E, SRC), a['dstImageLayout'] == K32(E, DST))),
            ('from the level before, whole', And(is_level(g.get('srcSubresource'), asp, k - 1, lay), whole(at(so, 0), at(so, 1), ext, k - 1))),
            ('to the level, whole', And(is_level(g.get('dstSubresource'), asp, k, lay), whole(at(do, 0), at(do, 1), ext, k))),
            ('the level before is then what is wanted next', moved(c, ev[2], k - 1, lay, nx)),
            ('the last level too', Implies(last, moved(c, ev[3], k, lay, nx))),
            ('any other level becomes the next source', Implies(Not(last), moved(c, ev[3], k, lay, SRC)))]
    return out


def ly_iter(c, ev):
    """a layer: its first level becomes readable, then every other level is made, in order"""
    E = c.E
    idx = c.entry_arg(2)
    i = info(c, idx)
    iid, vt, r = parts(c, idx)
    n = names(ev)
    single = i.get('mipLevels') == 1
    out = [('first level, then the others', z3.BoolVal(n in (['current', 'imageBarrier', 'loop:levels'], ['current', 'imageBarrier', 'loop:levels', 'imageBarrier'])))]
    if not z3.is_true(out[0][1]):
        return out
    nx = wanted_next(c)
    layer = ev[1].args['range'].get('baseArrayLayer')
    q = ev[0].args
    end = state(c)[0].get()
    out += [('a layer of the view', And(UGE(layer, r.get('baseArrayLayer')), ULT(layer, r.get('baseArrayLayer') + r.get('layerCount')))),
            ('the state of the first level is looked up', And(E.eq_val(q['image'], iid), q['viewType'] == vt, covers(q['range'], aspect_of(c, i), b32(0), layer), same(q['context'], ident(c.a(0))))),
            ('it becomes readable by transfers, from that state', And(moved(c, ev[1], b32(0), layer, SRC), ev[1].args['initial'] == q['res'].get('layout'))),
            ('every level was made', end.get('baseMipLevel') == i.get('mipLevels')),
            ('a single level is left as wanted next', single == z3.BoolVal(len(ev) == 4))]
    if len(ev) == 4:
        out.append(('the single level is then what is wanted next', moved(c, ev[3], b32(0), layer, nx)))
    return out


def mips(c):
    E = c.E
    n = names(c.events())
    ev = c.events()
    nx = [e for e in ev if e.name == 'next']
    out = [('only the levels of each layer', z3.BoolVal(sorted(n) == sorted(['createImage', 'next', 'loop:layers'])))]
    if len(nx) == 1:
        out.append(('what is wanted next is asked of the view of the index', And(E.eq_val(nx[0].args['view'], view_of(E, uses(c, 'images').get(b64(0)), IDX(c))), same(nx[0].args['context'], ident(c.a(0))))))
    return out


contract('crg::GenerateMipmaps::doRecordInto', ['P13'], requires=pre, may_throw=lambda c: TRUE, havoc=copy_hv, trace_ok=True, modular=False, ensures=mips,
         loops={0: LoopSpec(lambda c: [], iter=ly_iter, label='layers'), 1: LoopSpec(lv_inv, iter=lv_iter, label='levels')})
