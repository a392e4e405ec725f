"""The commands the built-in passes record: copies, blits, clears (P17), mipmaps (P13), draws and dispatches (P19)."""
from .common import *
from .layout import *
from .handlers import *
from .barriers import vk, R, ghost, view_pre
from .attachments import one, idx_ok
from .tables import is_layout_state
from . import submit as S
from .submit import names, ptrval, ident, find, set_fresh
from .passes import pass_of, att_wf, same

SRC, DST = 'VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL', 'VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL'


def uses(c, which):
    return pass_of(c).field(c.E, which).get()


def use_at(c, which, last):
    V = uses(c, which)
    return V.get(V.len - 1 if last else b64(0))


def has_use(which, last, idx):
    def f(c):
        V = uses(c, which)
        return [('the pass declares %s' % which, And(V.len != 0, ULT(V.len, b64(1 << 32)))),
                ('what it declares is well-formed', att_wf(c.E, use_at(c, which, last), which, idx(c)))]
    return f


def view_of(E, a, idx):
    vs = a.get('imageAttach').get('views')
    return vs.get(simp(one(vs, idx)))


def buffer_of(a, idx):
    B = a.get('bufferAttach').get('buffer').get('m_buffers')
    return B.get(simp(one(B, idx)))


def layers_of(E, s, r):
    """the subresource layers name the first mip level of the view and all its layers"""
    return And(s.get('aspectMask') == r.get('aspectMask'), s.get('mipLevel') == r.get('baseMipLevel'), s.get('baseArrayLayer') == r.get('baseArrayLayer'), s.get('layerCount') == r.get('layerCount'))


def xyz(o):
    return [o.get(n) for n in 'xyz']


def whd(o):
    return [o.get(n) for n in ('width', 'height', 'depth')]


def box(lo, hi, off, ext):
    """a box that starts at its offset and has the extent asked for"""
    return And(*[a == b for a, b in zip(xyz(lo), xyz(off))], *[a == b + e for a, b, e in zip(xyz(hi), xyz(off), whd(ext))])


def only(c, *want):
    ev = c.events()
    ok = names(ev) == list(want)
    return ok, [('nothing but %s' % ', '.join(want), z3.BoolVal(ok))], ev


IDX = lambda c: c.av(2)


def either(p, q, x, y):
    return Or(And(p(x), q(y)), And(p(y), q(x)))


def made(E, ev, iid, got):
    """the handle is the one of the image of that name, whichever order the handles were fetched in"""
    return Or(*[And(E.eq_val(e.args['image'], iid), e.ret == got) for e in ev if e.name == 'createImage'])


# ------------------------------------------------------------------------- buffer to image, image to buffer
def buf_img(name, img_par, buf_par, lay_par, lay):
    def f(c):
        E = c.E
        ok, out, ev = only(c, 'createImage', name)
        if not ok:
            return out
        iid, vt, r = view_parts(E, view_of(E, use_at(c, 'images', True), IDX(c)))
        buf = buffer_of(use_at(c, 'buffers', False), IDX(c))
        a = ev[1].args
        g = ptrval(a['pRegions'])
        return out + [('into the command buffer given', a['commandBuffer'] == c.av(1)),
                      ('the image of the view of the index', And(E.eq_val(ev[0].args['image'], iid), a[img_par] == ev[0].ret)),
                      ('in the layout of its side', a[lay_par] == K32(E, lay)),
                      ('the buffer of the index', a[buf_par] == buf),
                      ('one region', a['regionCount'] == 1),
                      ('of the mip level and layers of the view', layers_of(E, g.get('imageSubresource'), r)),
                      ('at the offset and of the extent asked for', And(E.eq_val(g.get('imageOffset'), c.f('m_copyOffset').get()), E.eq_val(g.get('imageExtent'), c.f('m_copySize').get()))),
                      ('from the start of the buffer, tightly packed', And(g.get('bufferOffset') == 0, g.get('bufferRowLength') == 0, g.get('bufferImageHeight') == 0))]
    return f


both = lambda c: has_use('images', True, IDX)(c) + has_use('buffers', False, IDX)(c)
contract('crg::BufferToImageCopy::doRecordInto', ['P17'], requires=both, may_throw=lambda c: TRUE, havoc=S.caches_havoc, trace_ok=True, modular=False, ensures=buf_img('vkCmdCopyBufferToImage', 'dstImage', 'srcBuffer', 'dstImageLayout', DST))
contract('crg::ImageToBufferCopy::doRecordInto', ['P17'], requires=both, may_throw=lambda c: TRUE, havoc=S.caches_havoc, trace_ok=True, modular=False, ensures=buf_img('vkCmdCopyImageToBuffer', 'srcImage', 'dstBuffer', 'srcImageLayout', SRC))


# ------------------------------------------------------------------------- buffer to buffer
def buf_buf(c):
    E = c.E
    ok, out, ev = only(c, 'bufferBarrier', 'bufferBarrier', 'vkCmdCopyBuffer', 'bufferBarrier', 'bufferBarrier')
    if not ok:
        return out
    s, d = use_at(c, 'buffers', False), use_at(c, 'buffers', True)
    rs, rd = s.get('bufferAttach').get('range'), d.get('bufferAttach').get('range')
    bs, bd = buffer_of(s, IDX(c)), buffer_of(d, IDX(c))
    a = ev[2].args
    g = ptrval(a['pRegions'])
    off = c.f('m_copyOffset').get()
    acc = lambda e, x, y=None: And(e.args['wanted'].get('access') == K32(E, x), e.args['wanted'].get('pipelineStage') == K32(E, y) if y else TRUE)
    out += [('into the command buffer given', And(*[e.args['cmd' if e.name == 'bufferBarrier' else 'commandBuffer'] == c.av(1) for e in ev])),
            ('between the buffers of the index', And(a['srcBuffer'] == bs, a['dstBuffer'] == bd)),
            ('one region', a['regionCount'] == 1),
            ('at the offset asked for into either range', And(g.get('srcOffset') == rs.get('offset') + off, g.get('dstOffset') == rd.get('offset') + off)),
            ('of the size asked for', g.get('size') == c.f('m_copyRange').get()),
            ('the source range is made readable, the destination range writable, for transfers', either(
                lambda e: And(e.args['buffer'] == bs, E.eq_val(e.args['range'], rs), acc(e, 'VK_ACCESS_TRANSFER_READ_BIT', 'VK_PIPELINE_STAGE_TRANSFER_BIT')),
                lambda e: And(e.args['buffer'] == bd, E.eq_val(e.args['range'], rd), acc(e, 'VK_ACCESS_TRANSFER_WRITE_BIT', 'VK_PIPELINE_STAGE_TRANSFER_BIT')), ev[0], ev[1])),
            ('afterwards the destination is readable by shaders, the source writable again', either(
                lambda e: And(e.args['buffer'] == bs, E.eq_val(e.args['range'], rs), acc(e, 'VK_ACCESS_SHADER_WRITE_BIT')),
                lambda e: And(e.args['buffer'] == bd, E.eq_val(e.args['range'], rd), acc(e, 'VK_ACCESS_SHADER_READ_BIT')), ev[3], ev[4]))]
    return out


contract('crg::BufferCopy::doRecordInto', ['P17'], requires=lambda c: has_use('buffers', False, IDX)(c) + has_use('buffers', True, IDX)(c), may_throw=lambda c: TRUE, havoc=lambda c: set_fresh(c, c.a(0).field(c.E, 'm_buffers')), trace_ok=True, modular=False, ensures=buf_buf)


# ------------------------------------------------------------------------- image to image
def blit(c):
    E = c.E
    ok, out, ev = only(c, 'createImage', 'createImage', 'vkCmdBlitImage')
    if not ok:
        return out
    si, _, sr = view_parts(E, view_of(E, use_at(c, 'images', False), IDX(c)))
    di, _, dr = view_parts(E, view_of(E, use_at(c, 'images', True), IDX(c)))
    a = ev[2].args
    g = ptrval(a['pRegions'])
    so, do = g.get('srcOffsets'), g.get('dstOffsets')
    at = lambda v, i: v.get(b64(i))
    return out + [('into the command buffer given', a['commandBuffer'] == c.av(1)),
                  ('from the image of the first view to the one of the last, of the index', And(made(E, ev, si, a['srcImage']), made(E, ev, di, a['dstImage']))),
                  ('in the layouts of a transfer', And(a['srcImageLayout'] == K32(E, SRC), a['dstImageLayout'] == K32(E, DST))),
                  ('one region', a['regionCount'] == 1), ('with the filter asked for', a['filter'] == c.f('m_filter').get()),
                  ('of the mip level and layers of the views', And(layers_of(E, g.get('srcSubresource'), sr), layers_of(E, g.get('dstSubresource'), dr))),
                  ('the source box starts at its offset and has its size', box(at(so, 0), at(so, 1), c.f('m_srcOffset').get(), c.f('m_srcSize').get())),
                  ('the destination box starts at its offset and has its size', box(at(do, 0), at(do, 1), c.f('m_dstOffset').get(), c.f('m_dstSize').get()))]


contract('crg::ImageBlit::doRecordInto', ['P17'], requires=lambda c: has_use('images', False, IDX)(c) + has_use('images', True, IDX)(c), may_throw=lambda c: TRUE, havoc=S.caches_havoc, trace_ok=True, modular=False, ensures=blit)


def pairs_wf(c):
    V = uses(c, 'images')
    k = z3.BitVec('k!pw', 64)
    return [('images come in pairs', And((V.len & 1) == 0, ULT(V.len, b64(1 << 32)))),
            ('every declared image is well-formed', ForAll([k], Implies(ULT(k, V.len), att_wf(c.E, V.get(k), 'images', c.entry(c.a(2)) if hasattr(c, 'entry') else IDX(c)))))]


def copy_iter(c, ev):
    E = c.E
    idx = c.entry(c.a(2))
    n = names(ev)
    out = [('one copy', z3.BoolVal(n in (['createImage', 'createImage', 'vkCmdCopyImage'], ['createImage', 'createImage', 'vkCmdCopyImage', 'imageBarrier'])))]
    if not z3.is_true(out[0][1]):
        return out
    V = uses(c, 'images')
    k = c.b(S.seq_iters(c, lambda t: t.k == 'struct' and t.name == 'crg::Attachment')[0]).idx
    s, d = V.get(k), V.get(k + 1)
    si, _, sr = view_parts(E, view_of(E, s, idx))
    di, dvt, dr = view_parts(E, view_of(E, d, idx))
    a = ev[2].args
    g = ptrval(a['pRegions'])
    zero = lambda o: And(*[x == 0 for x in xyz(o)])
    fin = c.f('m_finalOutputLayout').get()
    out += [('into the command buffer given', a['commandBuffer'] == c.entry(c.a(1))),
            ('from the image of a pair to its second one, of the index', And(made(E, ev, si, a['srcImage']), made(E, ev, di, a['dstImage']))),
            ('in the layouts of a transfer', And(a['srcImageLayout'] == K32(E, SRC), a['dstImageLayout'] == K32(E, DST))),
            ('one region', a['regionCount'] == 1),
            ('of the mip level and layers of the views', And(layers_of(E, g.get('srcSubresource'), sr), layers_of(E, g.get('dstSubresource'), dr))),
            ('from the origin, of the size asked for', And(zero(g.get('srcOffset')), zero(g.get('dstOffset')), E.eq_val(g.get('extent'), c.f('m_copySize').get()))),
            ('moved to the final layout exactly when one was asked for', (fin != K32(E, 'VK_IMAGE_LAYOUT_UNDEFINED')) == z3.BoolVal(len(ev) == 4))]
    if len(ev) == 4:
        b = ev[3].args
        out += [('the destination is moved to the final layout', And(E.eq_val(b['image'], di), E.eq_val(b['range'], dr), b['wanted'].get('layout') == fin, b['cmd'] == c.entry(c.a(1))))]
    return out


def pair_iters(c):
    return [r.get() for r in S.seq_iters(c, lambda t: t.k == 'struct' and t.name == 'crg::Attachment')[:2]]


def copy_inv(c):
    s, d = pair_iters(c)
    n = uses(c, 'images').len
    return [('pairs', And(ULE(s.idx, n), (s.idx & 1) == 0, Implies(s.idx != n, d.idx == s.idx + 1), s.vec.get().len == n))] + pairs_wf(c)


def copy_hv(c):
    S.caches_havoc(c)
    S.context_havoc(c, c.a(0))


contract('crg::ImageCopy::doRecordInto', ['P17'], requires=pairs_wf, may_throw=lambda c: TRUE, havoc=copy_hv, trace_ok=True, modular=False,
         ensures=lambda c: [('only the copies of the pairs', z3.BoolVal(set(names(c.events())) <= {'loop:pairs', 'createImage', 'vkCmdCopyImage', 'imageBarrier'}))], loops={0: LoopSpec(copy_inv, iter=copy_iter, label='pairs')})


# ------------------------------------------------------------------------- implicit and explicit actions
def one_layer(E, s, r):
    return And(s.get('aspectMask') == r.get('aspectMask'), s.get('mipLevel') == r.get('baseMipLevel'), s.get('baseArrayLayer') == r.get('baseArrayLayer'), s.get('layerCount') == 1)


def views_pre(c, *ix):
    out = [('registered passes exist', S.registered(c.E, c.a(0)))]
    for i in ix:
        out += view_pre(c, i)
    return out


def move(c, e, view, layout):
    """a barrier that moves the range of a view into a layout, with the accesses and stages of that layout"""
    E = c.E
    iid, vt, r = view_parts(E, view)
    b = e.args
    return And(b['cmd'] == c.av(1), E.eq_val(b['image'], iid), b['viewType'] == vt, E.eq_val(b['range'], r), is_layout_state(E, b['wanted'], layout), same(b['this'], ident(c.a(0))))


def between(cmd, geometry, lay):
    """an action that copies or blits one view to another one"""
    def f(c):
        E = c.E
        ev = c.events()
        ev = [e for e in ev if e.name == 'createImage'] + [e for e in ev if e.name != 'createImage']
        n = names(ev)
        core = ['createImage', 'createImage', 'implicit', 'imageBarrier', 'imageBarrier', cmd]
        out = [('implicit transition, transitions, then one command', z3.BoolVal(n in (core, core + ['imageBarrier'])))]
        if not z3.is_true(out[0][1]):
            return out
        src, dst = c.av(3), c.av(4)
        si, _, sr = view_parts(E, src)
        di, _, dr = view_parts(E, dst)
        a = ev[5].args
        g = ptrval(a['pRegions'])
        im = ev[2].args
        fin = lay(c)
        by = lambda iid, got: made(E, ev, iid, got)
        out += [('what the source has pending runs first', And(im['cmd'] == c.av(1), im['index'] == c.av(2), E.eq_val(im['view'], src))),
                ('both views are moved to the layouts of a transfer', Or(And(move(c, ev[3], src, K32(E, SRC)), move(c, ev[4], dst, K32(E, DST))), And(move(c, ev[4], src, K32(E, SRC)), move(c, ev[3], dst, K32(E, DST))))),
                ('from the image of the source to the one of the destination', And(a['commandBuffer'] == c.av(1), by(si, a['srcImage']), by(di, a['dstImage']))),
                ('in the layouts of a transfer', And(a['srcImageLayout'] == K32(E, SRC), a['dstImageLayout'] == K32(E, DST))),
                ('one region, of the first layer of the mip level of either view', And(a['regionCount'] == 1, one_layer(E, g.get('srcSubresource'), sr), one_layer(E, g.get('dstSubresource'), dr))),
                ('moved to the final layout exactly when one was asked for', (fin != K32(E, 'VK_IMAGE_LAYOUT_UNDEFINED')) == z3.BoolVal(len(ev) == 7))]
        if len(ev) == 7:
            out.append(('the destination is moved to the final layout', move(c, ev[6], dst, fin)))
        return out + geometry(c, a, g)
    return f


def copy_geo(c, a, g):
    zero = lambda o: And(*[x == 0 for x in xyz(o)])
    e = c.av(5)
    return [('from the origin, of the extent asked for', And(zero(g.get('srcOffset')), zero(g.get('dstOffset')), g.get('extent').get('width') == e.get('width'), g.get('extent').get('height') == e.get('height'), g.get('extent').get('depth') == 1))]


def flat(lo, hi, off, ext):
    return And(lo.get('x') == off.get('x'), lo.get('y') == off.get('y'), lo.get('z') == 0, hi.get('x') == off.get('x') + ext.get('width'), hi.get('y') == off.get('y') + ext.get('height'), hi.get('z') == 1)


def blit_geo(c, a, g):
    at = lambda n, i: g.get(n).get(b64(i))
    return [('the source box starts at its offset and has its extent', flat(at('srcOffsets', 0), at('srcOffsets', 1), c.av(5), c.av(6))),
            ('the destination box starts at its offset and has its extent', flat(at('dstOffsets', 0), at('dstOffsets', 1), c.av(7), c.av(8))),
            ('with the filter asked for', a['filter'] == c.av(9))]


contract('crgv::copyImage', ['P17'], trace_ok=True, modular=False, may_throw=lambda c: TRUE, requires=lambda c: views_pre(c, 3, 4), havoc=copy_hv,
         ensures=between('vkCmdCopyImage', copy_geo, lambda c: c.av(6)))
contract('crgv::blitImage', ['P17'], trace_ok=True, modular=False, may_throw=lambda c: TRUE, requires=lambda c: views_pre(c, 3, 4), havoc=copy_hv,
         ensures=between('vkCmdBlitImage', blit_geo, lambda c: c.av(10)))


def clear(view, value, lay):
    def f(c):
        E = c.E
        ev = c.events()
        n = names(ev)
        ev = [e for e in ev if e.name == 'createImage'] + [e for e in ev if e.name != 'createImage']
        n = names(ev)
        ok = any(n == ['createImage', 'imageBarrier', x] + t for x in ('vkCmdClearColorImage', 'vkCmdClearDepthStencilImage') for t in ([], ['imageBarrier']))
        out = [('transition, then one clear', z3.BoolVal(ok))]
        if not ok:
            return out
        v = view(c)
        iid, vt, r = view_parts(E, v)
        fin = lay(c)
        a = ev[2].args
        colour = ev[2].name == 'vkCmdClearColorImage'
        from .tables import fmt_in, DEPTH as DF, STENCIL as SF
        d = view_data(E, v).field(E, 'info').get().get('format')
        out += [('moved to the transfer destination layout', move(c, ev[1], v, K32(E, DST))),
                ('the image of the view is cleared', And(made(E, ev, iid, a['image']), a['commandBuffer'] == c.av(1), a['imageLayout'] == K32(E, DST))),
                ('over the range of the view', And(a['rangeCount'] == 1, E.eq_val(ptrval(a['pRanges']), r))),
                ('colours as colours, depth and stencil as such', z3.BoolVal(colour) == And(Not(fmt_in(E, d, DF)), Not(fmt_in(E, d, SF)))),
                ('moved to the final layout exactly when one was asked for', (fin != K32(E, 'VK_IMAGE_LAYOUT_UNDEFINED')) == z3.BoolVal(len(ev) == 4))]
        if value is not None:
            out.append(('to the value given', E.eq_val(ptrval(a['pColor' if colour else 'pDepthStencil']), value(c).get('color' if colour else 'depthStencil'))))
        if len(ev) == 4:
            out.append(('the view is moved to the final layout', move(c, ev[3], v, fin)))
        return out
    return f


contract('crgv::clearAttachment', ['P17'], trace_ok=True, modular=False, may_throw=lambda c: TRUE, havoc=copy_hv,
         requires=lambda c: [('the declared use is well-formed', att_wf(c.E, c.av(3), 'images', c.av(2)))],
         ensures=clear(lambda c: view_of(c.E, c.av(3), c.av(2)), lambda c: c.av(3).get('imageAttach').get('clearValue'), lambda c: c.av(4)))
contract('crgv::clearView', ['P17'], trace_ok=True, modular=False, may_throw=lambda c: TRUE, requires=lambda c: views_pre(c, 3), havoc=copy_hv,
         ensures=clear(lambda c: c.av(3), lambda c: c.av(4), lambda c: c.av(5)))


# ------------------------------------------------------------------------- draws and dispatches (P19)
from .descriptors import prog_wf, holder_wf, few_uses, ds_uses, pipe_hv, z32


def holder(c):
    return c.f('m_pipeline')


def at_index(cfg, idx):
    """the buffer of an instance of a configured buffer"""
    B = cfg.get('buffer').get('m_buffers')
    return B.get(simp(one(B, idx)))


def buf_ok(cfg, idx):
    B = cfg.get('buffer').get('m_buffers')
    return And(B.len != 0, idx_ok(B, idx), ULT(B.len, b64(1 << 32)))


def holder_pass(c):
    return c.E.deref(holder(c).field(c.E, 'm_pass').get(), Ty('struct', name='crg::FramePass'))


def rec_pre(c, cfg, *buffers):
    E = c.E
    p = holder_pass(c)
    I, B = p.field(E, 'images').get(), p.field(E, 'buffers').get()
    out = holder_wf(E, holder(c), IDX(c)) + [('fewer than 2^32 declared uses', And(ULT(I.len, b64(1 << 32)), ULT(B.len, b64(1 << 32))))]
    for w, V in (('images', I), ('buffers', B)):
        k = z3.BitVec('k!rp' + w, 64)
        out.append(('every declared use is well-formed (%s)' % w, ForAll([k], Implies(ULT(k, V.len), att_wf(E, V.get(k), w, IDX(c))))))
    for b in buffers:
        out.append(('the %s has a buffer for the index' % b, buf_ok(c.f(cfg).get().get(b), IDX(c))))
    return out


def rec_hv(c):
    E = c.E
    S.caches_havoc(c)
    for cls in ('crg::ContextResourcesCache', 'crg::ResourceHandler'):
        S.heap_havoc(c, cls, 'm_samplers')
    S.heap_havoc(c, 'crg::GraphContext', 'm_allocated')
    set_fresh(c, holder(c).field(E, 'm_descriptorSets'))
    S.context_havoc(c, c.a(0))


def cb_value(f):
    """what a value callback says"""
    f = f.get('m_callback') if hasattr(f, 'get') else f
    return z3.Function('cb!bv', f.sort(), z3.BitVecSort(32))(f)


def count(E, cfg, axis):
    """the group count: what its callback says, else the configured constant"""
    o = cfg.get('getGroupCount' + axis)
    return If(o.has, cb_value(o.val), cfg.get('groupCount' + axis))


def steps_of(c):
    return [e for e in c.events() if e.name in ('pipeline', 'bind', 'call:recordInto', 'call:end') or e.name.startswith('vk')]


def own_bind(c, ev, cmds):
    """pipeline and descriptors bound, then what the user records, before any draw or dispatch"""
    n = names(ev)
    b, r = [e for e in ev if e.name == 'bind'], [e for e in ev if e.name == 'call:recordInto']
    last = [k for k, x in enumerate(n) if x in cmds]
    out = [('binds once, then lets the user record, then the command', z3.BoolVal(len(b) == 1 and len(r) == 1 and len(last) == 1 and n.index('bind') < n.index('call:recordInto') < last[0] if last else False))]
    if len(b) == 1:
        out.append(('its own pipeline and descriptors, of the index', And(b[0].args['this'] == ident(holder(c)), b[0].args['cmd'] == c.av(1), b[0].args['index'] == IDX(c))))
    if len(r) == 1:
        out.append(('the user records for the same index', And(r[0].args['a1'] == c.av(1), r[0].args['a2'] == IDX(c))))
    return out, ([ev[k] for k in last] or [None])[0]


def dispatch(c):
    E = c.E
    cfg = c.f('m_cpConfig').get()
    ev = steps_of(c)
    out, d = own_bind(c, ev, ('vkCmdDispatch', 'vkCmdDispatchIndirect'))
    e = [x for x in ev if x.name == 'call:end']
    out.append(('then the user ends it', z3.BoolVal(len(e) == 1 and ev[-1].name == 'call:end' and len(ev) == 4)))
    if d is None:
        return out
    if len(e) == 1:
        out.append(('for the same index', And(e[0].args['a1'] == c.av(1), e[0].args['a2'] == IDX(c))))
    ind = cfg.get('indirectBuffer')
    buf = at_index(ind, IDX(c))
    a = d.args
    if d.name == 'vkCmdDispatchIndirect':
        out += [('indirect exactly where there is a buffer for it', buf != 0), ('from the buffer of the index, at its offset', And(a['commandBuffer'] == c.av(1), a['buffer'] == buf, a['offset'] == ind.get('offset')))]
    else:
        out += [('indirect exactly where there is a buffer for it', buf == 0), ('with the counts of each axis', And(a['commandBuffer'] == c.av(1), *[a['groupCount' + x] == count(E, cfg, x) for x in 'XYZ']))]
    return out


DRAWS = ('vkCmdDraw', 'vkCmdDrawIndexed', 'vkCmdDrawIndirect', 'vkCmdDrawIndexedIndirect')


def vertices(c, ev, d, buf):
    """the vertex buffer is bound exactly where there is one"""
    vb = [e for e in ev if e.name == 'vkCmdBindVertexBuffers']
    out = [('vertices bound at most once, before the draw', z3.BoolVal(len(vb) <= 1 and all(ev.index(e) < ev.index(d) for e in vb))), ('exactly where there is a vertex buffer', (buf != 0) == z3.BoolVal(len(vb) == 1))]
    for e in vb:
        a = e.args
        out.append(('the vertex buffer of the index, from its start', And(a['commandBuffer'] == c.av(1), a['firstBinding'] == 0, a['bindingCount'] == 1, ptrval(a['pBuffers']) == buf, ptrval(a['pOffsets']) == 0)))
    return out


def mesh(c):
    E = c.E
    cfg = c.f('m_config').get()
    ev = steps_of(c)
    out, d = own_bind(c, ev, DRAWS)
    n = names(ev)
    out.append(('the pipeline is there before it is bound', z3.BoolVal('pipeline' in n and n.index('pipeline') < n.index('bind')) if 'bind' in n else z3.BoolVal(False)))
    if d is None:
        return out
    out += [('nothing else', z3.BoolVal(all(x in DRAWS + ('pipeline', 'bind', 'call:recordInto', 'vkCmdBindVertexBuffers', 'vkCmdBindIndexBuffer') for x in n)))]
    out += vertices(c, ev, d, at_index(cfg.get('vertexBuffer'), IDX(c)))
    ix, ind = cfg.get('indexBuffer'), cfg.get('indirectBuffer')
    ib, nb = at_index(ix, IDX(c)), at_index(ind, IDX(c))
    bi = [e for e in ev if e.name == 'vkCmdBindIndexBuffer']
    out += [('indices bound at most once, before the draw', z3.BoolVal(len(bi) <= 1 and all(ev.index(e) < ev.index(d) for e in bi))),
            ('exactly where there is an index buffer', (ib != 0) == z3.BoolVal(len(bi) == 1)),
            ('an indexed draw exactly then', (ib != 0) == z3.BoolVal('Indexed' in d.name)), ('an indirect draw exactly where there is a buffer for it', (nb != 0) == z3.BoolVal('Indirect' in d.name))]
    for e in bi:
        out.append(('the index buffer of the index, of its type', And(e.args['commandBuffer'] == c.av(1), e.args['buffer'] == ib, e.args['offset'] == 0, e.args['indexType'] == cb_value(cfg.get('getIndexType')))))
    a = d.args
    out.append(('in the command buffer given', a['commandBuffer'] == c.av(1)))
    if 'Indirect' in d.name:
        out.append(('one draw, from the buffer of the index at its offset and stride', And(a['buffer'] == nb, a['offset'] == ind.get('offset'), a['drawCount'] == 1, a['stride'] == ind.get('stride'))))
    elif d.name == 'vkCmdDrawIndexed':
        out.append(('one instance of all the indices', And(a['indexCount'] == cb_value(cfg.get('getPrimitiveCount')), a['instanceCount'] == 1, a['firstIndex'] == 0, a['vertexOffset'] == 0, a['firstInstance'] == 0)))
    else:
        out.append(('one instance of all the vertices', And(a['vertexCount'] == cb_value(cfg.get('getVertexCount')), a['instanceCount'] == 1, a['firstVertex'] == 0, a['firstInstance'] == 0)))
    return out


def quad_buf(c):
    E = c.E
    p = c.f('m_vertexBuffer').get()
    vb = E.deref(p, Ty('struct', name='crg::VertexBuffer')) if isinstance(p, z3.ExprRef) else p
    return p, vb


def quad(c):
    E = c.E
    cfg = c.f('m_config').get()
    ev = steps_of(c)
    out, d = own_bind(c, ev, DRAWS)
    n = names(ev)
    out.append(('the pipeline is there before it is bound', z3.BoolVal('pipeline' in n and n.index('pipeline') < n.index('bind')) if 'bind' in n else z3.BoolVal(False)))
    if d is None:
        return out
    out += [('nothing else', z3.BoolVal(all(x in DRAWS + ('pipeline', 'bind', 'call:recordInto', 'vkCmdBindVertexBuffers') for x in n)))]
    p, vb = quad_buf(c)
    B = vb.field(E, 'buffer').get().get('m_buffers')
    out += vertices(c, ev, d, If(p == 0, 0, B.get(simp(one(B, IDX(c))))))
    ind = cfg.get('indirectBuffer')
    nb = at_index(ind, IDX(c))
    a = d.args
    out += [('an indirect draw exactly where there is a buffer for it', (nb != 0) == z3.BoolVal('Indirect' in d.name)), ('in the command buffer given', a['commandBuffer'] == c.av(1)), ('not an indexed one', z3.BoolVal('Indexed' not in d.name))]
    if 'Indirect' in d.name:
        out.append(('one draw, from the buffer of the index at its offset and stride', And(a['buffer'] == nb, a['offset'] == ind.get('offset'), a['drawCount'] == 1, a['stride'] == ind.get('stride'))))
    else:
        out.append(('the three vertices that cover the screen, for every instance', And(a['vertexCount'] == 3, a['instanceCount'] == cfg.get('m_instances'), a['firstVertex'] == 0, a['firstInstance'] == 0)))
    return out


def quad_pre(c):
    p, vb = quad_buf(c)
    B = vb.field(c.E, 'buffer').get().get('m_buffers')
    return [('the vertex buffer has a buffer for the index', Implies(p != 0, And(B.len != 0, idx_ok(B, IDX(c)), ULT(B.len, b64(1 << 32)))))]


def draw_hv(c):
    rec_hv(c)
    h = holder(c)
    set_fresh(c, h.field(c.E, 'm_pipelines'))
    set_fresh(c, h.field(c.E, 'm_baseConfig'))


contract('crg::ComputePass::doRecordInto', ['P19'], may_throw=lambda c: TRUE, trace_ok=True, modular=False, havoc=rec_hv, requires=lambda c: rec_pre(c, 'm_cpConfig', 'indirectBuffer'), ensures=dispatch)
contract('crg::RenderMeshHolder::record', ['P19'], may_throw=lambda c: TRUE, trace_ok=True, modular=False, havoc=draw_hv, requires=lambda c: rec_pre(c, 'm_config', 'indirectBuffer', 'indexBuffer', 'vertexBuffer') + prog_wf(c, holder(c), IDX(c)), ensures=mesh)
contract('crg::RenderQuadHolder::record', ['P19'], may_throw=lambda c: TRUE, trace_ok=True, modular=False, havoc=draw_hv, requires=lambda c: rec_pre(c, 'm_config', 'indirectBuffer') + prog_wf(c, holder(c), IDX(c)) + quad_pre(c), ensures=quad)
