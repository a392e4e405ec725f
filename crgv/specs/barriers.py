"""Image and buffer memory barriers (P02, P03)"""
from .common import *
from .layout import *
from .handlers import *

R = 'crg::RecordContext::'
BOTTOM = 'VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT'


def cache_of(c):
    """the per-context resource cache of a record context"""
    return HeapObj(c.E, 'crg::ContextResourcesCache', c.f('m_resources').get())


def havoc_cache(E, cache):
    for n in ('m_images', 'm_imageViews'):
        r = cache.field(E, n)
        r.set(E.fresh(r.ty, n))
    h = HeapObj(E, 'crg::ResourceHandler', cache.field(E, 'm_handler').get())
    for n in ('m_images', 'm_imageViews'):
        r = h.field(E, n)
        r.set(E.fresh(r.ty, n))


def ghost(c, name, ret=None, **args):
    c.E.S.trace.append(Event(name, args, ret))


CR = 'crg::ContextResourcesCache::'
def _rs():
    from . import resources
    return resources


contract(CR + 'createImage', ['P12'], np=1, trace_ok=True, setup=lambda c: c.E.assume(_rs().few_types(c.E, _rs().ctx_of(c))),
         requires=lambda c: [('the image exists', img_ok(c.E, c.av(0)))],
         may_throw=lambda c: TRUE, ensures=lambda c: _rs().ci_post(c), call_ensures=lambda c: _rs().ci_call(c),
         havoc=lambda c: havoc_cache(c.E, c.this),
         emits=lambda c: ghost(c, 'createImage', c.res(), cache=c.this.addr, image=c.av(0)))

contract(CR + 'createImageView', ['P12'], np=1, trace_ok=True, setup=lambda c: c.E.assume(_rs().few_types(c.E, _rs().ctx_of(c))),
         requires=lambda c: _rs().view_there(c, 0),
         may_throw=lambda c: TRUE, ensures=lambda c: _rs().cv_post(c), call_ensures=lambda c: [],
         havoc=lambda c: havoc_cache(c.E, c.this),
         emits=lambda c: ghost(c, 'createImageView', c.res(), cache=c.this.addr, view=c.av(0)))


def ds_format(E, f):
    return Or([f == K32(E, 'VK_FORMAT_' + n) for n in ('D16_UNORM_S8_UINT', 'D24_UNORM_S8_UINT', 'D32_SFLOAT_S8_UINT')])


def adapted(c, iid, r):
    """without separate depth/stencil layouts both aspects of a combined format transition together"""
    E = c.E
    ctx = HeapObj(E, 'crg::GraphContext', cache_of(c).field(E, 'm_context').get())
    both = K32(E, 'VK_IMAGE_ASPECT_DEPTH_BIT') | K32(E, 'VK_IMAGE_ASPECT_STENCIL_BIT')
    a = r.get('aspectMask')
    widen = And(Not(ctx.field(E, 'separateDepthStencilLayouts').get()), ds_format(E, img_info(E, iid).get('format')),
                Or(a == K32(E, 'VK_IMAGE_ASPECT_DEPTH_BIT'), a == K32(E, 'VK_IMAGE_ASPECT_STENCIL_BIT')))
    return r.with_('aspectMask', simp(If(widen, both, a)))


from .tables import spec_access, spec_stage


def track_from(c, iid, vt, r, initial):
    """state the barrier leaves: what is tracked, or what the caller says when nothing is"""
    E = c.E
    vr = virtual_range(E, iid, vt, r)
    M = c.old(mapref(c, ['m_images', 'images']))
    got, has = hread(E, M, iid, vr)
    lay = If(has, got.get('layout'), K32(E, 'VK_IMAGE_LAYOUT_UNDEFINED'))
    unk = lay == K32(E, 'VK_IMAGE_LAYOUT_UNDEFINED')
    return dict(layout=simp(If(unk, initial, lay)), access=simp(If(unk, spec_access(E, initial), got.get('state').get('access'))),
                stage=simp(If(unk, spec_stage(E, initial), got.get('state').get('pipelineStage'))))


def vk(c):
    return [e for e in c.events() if e.name.startswith('vkCmd')]


def img_barrier(c, image, vt, r, initial, wanted, force):
    """contract of the image barrier, in terms of the device commands it issues"""
    E = c.E
    rg = adapted(c, image, r)
    f = track_from(c, image, vt, rg, initial)
    w = wanted
    needed = Or(force, And(Or(f['layout'] != w.get('layout'), f['stage'] != w.get('state').get('pipelineStage')), w.get('layout') != K32(E, 'VK_IMAGE_LAYOUT_UNDEFINED')))
    M0, M1 = c.old(mapref(c, ['m_images', 'images'])), mapref(c, ['m_images', 'images']).get()
    ev = vk(c)
    out = []
    if not ev:
        out.append(('a barrier is issued when the layout or stage differs or it is forced', Not(needed)))
        out.append(('without a barrier the tracked layouts do not change', same_images(E, M0, M1)))
        return out
    out.append(('a barrier is only issued when one is needed', needed))
    out.append(('exactly one pipeline barrier is issued', z3.BoolVal(len(ev) == 1 and ev[0].name == 'vkCmdPipelineBarrier')))
    if len(ev) != 1 or ev[0].name != 'vkCmdPipelineBarrier':
        return out
    a = ev[0].args
    cr = [e for e in c.events() if e.name == 'createImage']
    out += [('commands go to the command buffer given', a['commandBuffer'] == c.av(0)),
            ('source stage is the tracked one', a['srcStageMask'] == f['stage']),
            ('destination stage is the wanted one', a['dstStageMask'] == w.get('state').get('pipelineStage')),
            ('by-region dependency', a['dependencyFlags'] == K32(E, 'VK_DEPENDENCY_BY_REGION_BIT')),
            ('one image barrier only', And(a['imageMemoryBarrierCount'] == 1, a['bufferMemoryBarrierCount'] == 0, a['memoryBarrierCount'] == 0))]
    p = a['pImageMemoryBarriers']
    if not (isinstance(p, tuple)) or p[0] != 'ptr' or len(cr) != 1:
        out.append(('the barrier is over the image asked for', z3.BoolVal(False)))
        return out
    b = p[1]
    ign = K32(E, 'VK_QUEUE_FAMILY_IGNORED') if 'VK_QUEUE_FAMILY_IGNORED' in E.vk.consts else b32(0xffffffff)
    out += [('structure type', And(b.get('sType') == K32(E, 'VK_STRUCTURE_TYPE_IMAGE_MEMORY_BARRIER'), b.get('pNext') == 0)),
            ('old layout and access are the tracked ones', And(b.get('oldLayout') == f['layout'], b.get('srcAccessMask') == f['access'])),
            ('new layout and access are the wanted ones', And(b.get('newLayout') == w.get('layout'), b.get('dstAccessMask') == w.get('state').get('access'))),
            ('no ownership transfer', And(b.get('srcQueueFamilyIndex') == ign, b.get('dstQueueFamilyIndex') == ign)),
            ('the barrier is over the image asked for', And(b.get('image') == cr[0].ret, E.eq_val(cr[0].args['image'], image))),
            ('the barrier covers the range asked for', E.eq_val(b.get('subresourceRange'), rg)),
            ('the wanted state becomes the tracked one, for exactly that range',
             hrecorded(E, M0, M1, image, virtual_range(E, image, vt, rg), w))]
    return out


def same_images(E, M0, M1):
    return E.eq_val(M0, M1)


def img_call(c, image, vt, r, initial, wanted, force):
    """what a caller may use of an image barrier: the tracked layouts of that range become the wanted ones, or nothing changes"""
    E = c.E
    M0, M1 = c.old(mapref(c, ['m_images', 'images'])), mapref(c, ['m_images', 'images']).get()
    rg = adapted(c, image, r)
    vr = virtual_range(E, image, vt, rg)
    return [('recorded or unchanged', Or(same_images(E, M0, M1), hrecorded(E, M0, M1, image, vr, wanted)))]


def img_pre(c, image, vt, r):
    return [('the image exists', img_ok(c.E, image)), ('the range does not wrap', nowrap(r)), ('a mip level exists', lvl_ok(r))]


def bar_havoc(c):
    m = mapref(c, ['m_images', 'images'])
    m.set(c.E.fresh(m.ty, 'images'))
    havoc_cache(c.E, cache_of(c))


def view_pre(c, i):
    """barriers work on the image and range of the view, merged or not"""
    return [x for x in view_req(c, i) if x[0] != "the view is not a merged one"]


def vpre(c, i):
    return view_req(c, i)


def no_res(c):
    return c.old(c.f('m_resources')) == 0 if c.pre else c.f('m_resources').get() == 0


def mk_img(np, sub, image, initial, wanted, force, key, pre):
    """image(c) -> (id, view type, range)"""
    contract(R + 'memoryBarrier', ['P02'], np=np, sub=sub, key=R + 'memoryBarrier(' + key + ')',
             requires=pre, may_throw=lambda c: TRUE, throws_when=no_res, havoc=bar_havoc,
             ensures=(lambda c: img_barrier(c, *image(c), initial(c), c.av(wanted), c.av(force))) if key == 'image, view type, initial' else (lambda c: img_forward(c, image, initial, wanted, force)),
             call_ensures=lambda c: img_call(c, *image(c), initial(c), c.av(wanted), c.av(force)),
             emits=lambda c: ghost(c, 'imageBarrier', this=c.this.addr, cmd=c.av(0), image=image(c)[0], viewType=image(c)[1], range=image(c)[2], initial=initial(c), wanted=c.av(wanted), force=c.av(force)))


def img_forward(c, image, initial, wanted, force):
    """the convenience overloads are the full barrier over the same image, view type and range"""
    E = c.E
    ev = c.events()
    out = [('is exactly one image barrier', z3.BoolVal(len(ev) == 1 and ev[0].name == 'imageBarrier'))]
    if len(ev) == 1 and ev[0].name == 'imageBarrier':
        iid, vt, r = image(c)
        a = ev[0].args
        out += [('on this context', a['this'] == c.this.addr), ('same command buffer', a['cmd'] == c.av(0)), ('same image', E.eq_val(a['image'], iid)),
                ('same view type', a['viewType'] == vt), ('same range', E.eq_val(a['range'], r)), ('initial layout', a['initial'] == initial(c)),
                ('wanted state', E.eq_val(a['wanted'], c.av(wanted))), ('force', a['force'] == c.av(force))]
    return out


UND = lambda c: K32(c.E, 'VK_IMAGE_LAYOUT_UNDEFINED')
of_view = lambda c: view_parts(c.E, c.av(1))
of_img = lambda i: (lambda c: (c.av(1), c.av(2), c.av(3)))
of_img2 = lambda c: (c.av(1), img_info(c.E, c.av(1)).get('imageType'), c.av(2))
pre_view = lambda c: view_pre(c, 1)
pre_img = lambda i: (lambda c: img_pre(c, c.av(1), None, c.av(i)))
mk_img(7, 'VkImageViewType', of_img(0), lambda c: c.av(4), 5, 6, 'image, view type, initial', pre_img(3))
mk_img(6, 'VkImageViewType', of_img(0), UND, 4, 5, 'image, view type', pre_img(3))
mk_img(6, 'const ImageId &, const VkImageSubresourceRange', of_img2, lambda c: c.av(3), 4, 5, 'image, initial', pre_img(2))
mk_img(5, 'const ImageId &, const VkImageSubresourceRange', of_img2, UND, 3, 4, 'image', pre_img(2))
mk_img(5, 'const ImageViewId &, VkImageLayout', of_view, lambda c: c.av(2), 3, 4, 'view, initial', pre_view)
mk_img(4, 'const ImageViewId &, const LayoutState', of_view, UND, 2, 3, 'view', pre_view)


# ------------------------------------------------------------------------- buffers
def buf_from(c, M, buf, a, s):
    E = c.E
    st = M.at(buf)
    unk = Or(Not(M.has(buf)), st.get('pipelineStage') == K32(E, BOTTOM))
    return simp(If(unk, a, st.get('access'))), simp(If(unk, s, st.get('pipelineStage')))


def buf_ensures(c):
    E = c.E
    M0, M1 = c.old(c.f('m_buffers')), c.f('m_buffers').get()
    buf, rg, w, force = c.av(1), c.av(2), c.av(5), c.av(6)
    acc, stg = buf_from(c, M0, buf, c.av(3), c.av(4))
    needed = Or(force, acc != w.get('access'), stg != w.get('pipelineStage'))
    ev = vk(c)
    if not ev:
        return [('a barrier is issued when access or stage differs or it is forced', Not(needed)),
                ('without a barrier the tracked accesses do not change', E.eq_val(M0, M1))]
    out = [('a barrier is only issued when one is needed', needed),
           ('exactly one pipeline barrier is issued', z3.BoolVal(len(ev) == 1 and ev[0].name == 'vkCmdPipelineBarrier'))]
    if len(ev) != 1 or ev[0].name != 'vkCmdPipelineBarrier':
        return out
    a = ev[0].args
    out += [('commands go to the command buffer given', a['commandBuffer'] == c.av(0)),
            ('source stage is the tracked one', a['srcStageMask'] == stg),
            ('destination stage is the wanted one', a['dstStageMask'] == w.get('pipelineStage')),
            ('by-region dependency', a['dependencyFlags'] == K32(E, 'VK_DEPENDENCY_BY_REGION_BIT')),
            ('one buffer barrier only', And(a['imageMemoryBarrierCount'] == 0, a['bufferMemoryBarrierCount'] == 1, a['memoryBarrierCount'] == 0))]
    p = a['pBufferMemoryBarriers']
    if not isinstance(p, tuple) or p[0] != 'ptr':
        out.append(('the barrier is over the buffer asked for', z3.BoolVal(False)))
        return out
    b = p[1]
    ign = K32(E, 'VK_QUEUE_FAMILY_IGNORED') if 'VK_QUEUE_FAMILY_IGNORED' in E.vk.consts else b32(0xffffffff)
    k = z3.BitVec('k!b', 64)
    out += [('structure type', And(b.get('sType') == K32(E, 'VK_STRUCTURE_TYPE_BUFFER_MEMORY_BARRIER'), b.get('pNext') == 0)),
            ('source access is the tracked one', b.get('srcAccessMask') == acc),
            ('destination access is the wanted one', b.get('dstAccessMask') == w.get('access')),
            ('no ownership transfer', And(b.get('srcQueueFamilyIndex') == ign, b.get('dstQueueFamilyIndex') == ign)),
            ('the barrier is over the buffer asked for', b.get('buffer') == buf),
            ('the barrier covers the range asked for', And(b.get('offset') == rg.get('offset'), b.get('size') == rg.get('size'))),
            ('the wanted state becomes the tracked one, of that buffer only', buf_recorded(E, M0, M1, buf, w))]
    return out


def buf_recorded(E, M0, M1, buf, w):
    k = z3.BitVec('k!b', 64)
    return And(M1.has(buf), E.eq_val(M1.at(buf), w),
               ForAll([k], Implies(k != buf, And(M1.has(k) == M0.has(k), Implies(M0.has(k), E.eq_val(M1.at(k), M0.at(k)))))))


def buf_emits(ini):
    def f(c):
        n = 5 if ini is None else 3
        ia, is_ = (c.av(3), c.av(4)) if ini is None else ini(c.E)
        ghost(c, 'bufferBarrier', this=c.this.addr, cmd=c.av(0), buffer=c.av(1), range=c.av(2), access=ia, stage=is_, wanted=c.av(n), force=c.av(n + 1))
    return f


def buf_call(n):
    def f(c):
        M0, M1 = c.old(c.f('m_buffers')), c.f('m_buffers').get()
        return [('recorded or unchanged', Or(c.E.eq_val(M0, M1), buf_recorded(c.E, M0, M1, c.av(1), c.av(n))))]
    return f


def buf_forward(c):
    E, ev = c.E, c.events()
    ok = len(ev) == 1 and ev[0].name == 'bufferBarrier'
    out = [('is exactly one buffer barrier', z3.BoolVal(ok))]
    if ok:
        a = ev[0].args
        out += [('same context, commands, buffer and range', And(a['this'] == c.this.addr, a['cmd'] == c.av(0), a['buffer'] == c.av(1), E.eq_val(a['range'], c.av(2)))),
                ('starts from no access at the bottom of the pipe', And(a['access'] == 0, a['stage'] == K32(E, BOTTOM))),
                ('wanted state and force', And(E.eq_val(a['wanted'], c.av(3)), a['force'] == c.av(4)))]
    return out


hb = lambda c: c.f('m_buffers').set(c.E.fresh(c.f('m_buffers').ty, 'buffers'))


def buf_throw(c, n, ini):
    """only a barrier needs the device"""
    return TRUE


contract(R + 'memoryBarrier', ['P03'], np=7, sub='VkBuffer', key=R + 'memoryBarrier(buffer, initial)', havoc=hb, may_throw=no_res,
         ensures=buf_ensures, call_ensures=buf_call(5), emits=buf_emits(None))
contract(R + 'memoryBarrier', ['P03'], np=5, sub='VkBuffer', key=R + 'memoryBarrier(buffer)', havoc=hb, may_throw=no_res,
         ensures=buf_forward, call_ensures=buf_call(3), emits=buf_emits(lambda E: (b32(0), K32(E, BOTTOM))))
contract(R + 'setAccessState', ['P03'], np=3, havoc=hb,
         ensures=lambda c: [('the access state is recorded for that buffer only', buf_recorded(c.E, c.old(c.f('m_buffers')), c.f('m_buffers').get(), c.av(0), c.av(2)))])


def get_access(c):
    M, buf, res, E = c.f('m_buffers').get(), c.av(0), c.res(), c.E
    return [('what is read is what was recorded for that buffer', Implies(M.has(buf), E.eq_val(res, M.at(buf)))),
            ('nothing recorded reads as no access, bottom of pipe', Implies(Not(M.has(buf)), And(res.get('access') == 0, res.get('pipelineStage') == K32(E, BOTTOM))))]


contract(R + 'getAccessState', ['P03'], np=2, ensures=get_access)
