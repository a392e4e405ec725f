"""Declared uses of resources (P07): what each kind of attachment says about layout, access, stages and descriptors,
and what each declaration on a pass records."""
from .common import *
from .layout import *
from .handlers import deref, img_info, view_data
from .tables import spec_access, spec_stage, fmt_in, DEPTH as DEPTHS, STENCIL as STENCILS

IA, BA, AT = 'crg::ImageAttachment', 'crg::BufferAttachment', 'crg::Attachment'
# flag bits (public enums of the attachments)
SAMPLED, STORAGE, TRANSFER, DEPTH, STENCIL, SCLEAR, SIN, SOUT, TRANSITION = (1 << k for k in range(9))
B_UNIFORM, B_STORAGE, B_TRANSFER, B_VIEW, B_TRANSITION = (1 << k for k in range(5))
A_IN, A_OUT, A_IMAGE, A_BUFFER, A_NOTRANS, A_CLEAR = (1 << k for k in range(6))


def b16(v):
    return z3.BitVecVal(v, 16)


def has(f, bit):
    return f & b16(bit) == b16(bit)


def one_of(f, l):
    return Or([f == b16(x) for x in l])


def is_ds(f):
    """a depth and/or stencil attachment: depth/stencil bits and their qualifiers only"""
    return And(f & b16(DEPTH | STENCIL) != 0, f & b16(0xffff & ~(DEPTH | STENCIL | SCLEAR | SIN | SOUT)) == 0)


def is_trans(f):
    return one_of(f, [TRANSITION, TRANSITION | DEPTH, TRANSITION | DEPTH | STENCIL, TRANSITION | STENCIL])


def img_use(f):
    """an image attachment has exactly one use"""
    return Or(one_of(f, [0, SAMPLED, STORAGE, TRANSFER]), is_trans(f), is_ds(f))


def buf_use(f):
    return one_of(f, [B_UNIFORM, B_STORAGE, B_TRANSFER, B_TRANSITION, B_UNIFORM | B_VIEW, B_STORAGE | B_VIEW, B_TRANSITION | B_VIEW])


def cases(default, *rows):
    v = default
    for c, x in reversed(rows):
        v = If(c, x, v)
    return v


def bits(E, *rows):
    v = b32(0)
    for c, n in rows:
        v = v | If(c, K32(E, n), b32(0))
    return v


def img_layout(E, f, wanted, separate, i, o):
    K = lambda n: K32(E, 'VK_IMAGE_LAYOUT_' + n)
    d, s, si, so = has(f, DEPTH), has(f, STENCIL), has(f, SIN), has(f, SOUT)
    rw = If(separate, cases(K('DEPTH_STENCIL_ATTACHMENT_OPTIMAL'), (And(d, s), K('DEPTH_STENCIL_ATTACHMENT_OPTIMAL')), (s, K('STENCIL_ATTACHMENT_OPTIMAL')), (d, K('DEPTH_ATTACHMENT_OPTIMAL'))), K('DEPTH_STENCIL_ATTACHMENT_OPTIMAL'))
    ro = If(separate, cases(K('DEPTH_STENCIL_READ_ONLY_OPTIMAL'), (And(d, s), K('DEPTH_STENCIL_READ_ONLY_OPTIMAL')), (s, K('STENCIL_READ_ONLY_OPTIMAL')), (d, K('DEPTH_READ_ONLY_OPTIMAL'))), K('DEPTH_STENCIL_READ_ONLY_OPTIMAL'))
    writes = And(o, Or(d, so))
    reads = And(i, Or(d, si))
    dsl = cases(K('SHADER_READ_ONLY_OPTIMAL'), (writes, rw), (reads, ro))
    known = Or(Not(is_ds(f)), writes, reads)
    lay = cases(K('COLOR_ATTACHMENT_OPTIMAL'), (f == SAMPLED, K('SHADER_READ_ONLY_OPTIMAL')), (is_trans(f), wanted), (f == STORAGE, K('GENERAL')),
                (f == TRANSFER, If(o, K('TRANSFER_DST_OPTIMAL'), K('TRANSFER_SRC_OPTIMAL'))), (is_ds(f), dsl))
    return And(known, Or(f != TRANSFER, i, o)), lay


def img_access(E, f, wanted, i, o):
    A = 'VK_ACCESS_'
    rw = lambda n: bits(E, (i, A + n + '_READ_BIT'), (o, A + n + '_WRITE_BIT'))
    return cases(rw('COLOR_ATTACHMENT'), (f == SAMPLED, K32(E, A + 'SHADER_READ_BIT')), (is_trans(f), spec_access(E, wanted)), (f == STORAGE, rw('SHADER')),
                 (f == TRANSFER, rw('TRANSFER')), (is_ds(f), rw('DEPTH_STENCIL_ATTACHMENT')))


def img_stage(E, f, wanted, comp):
    S = lambda n: K32(E, 'VK_PIPELINE_STAGE_' + n)
    sh = If(comp, S('COMPUTE_SHADER_BIT'), S('FRAGMENT_SHADER_BIT'))
    return cases(S('COLOR_ATTACHMENT_OUTPUT_BIT'), (Or(f == SAMPLED, f == STORAGE), sh), (is_trans(f), spec_stage(E, wanted)), (f == TRANSFER, S('TRANSFER_BIT')), (is_ds(f), S('LATE_FRAGMENT_TESTS_BIT')))


def img_desc(E, f):
    return If(has(f, STORAGE), K32(E, 'VK_DESCRIPTOR_TYPE_STORAGE_IMAGE'), K32(E, 'VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER'))


def buf_access(E, f, w, i, o):
    A = 'VK_ACCESS_'
    rw = lambda n: bits(E, (i, A + n + '_READ_BIT'), (o, A + n + '_WRITE_BIT'))
    return cases(K32(E, A + 'SHADER_READ_BIT'), (has(f, B_TRANSITION), w.get('access')), (has(f, B_STORAGE), rw('SHADER')), (has(f, B_TRANSFER), rw('TRANSFER')))


def buf_stage(E, f, w, comp):
    S = lambda n: K32(E, 'VK_PIPELINE_STAGE_' + n)
    return cases(If(comp, S('COMPUTE_SHADER_BIT'), S('FRAGMENT_SHADER_BIT')), (has(f, B_TRANSITION), w.get('pipelineStage')), (has(f, B_TRANSFER), S('TRANSFER_BIT')))


def buf_desc(E, f):
    D = lambda n: K32(E, 'VK_DESCRIPTOR_TYPE_' + n)
    v = has(f, B_VIEW)
    return If(has(f, B_UNIFORM), If(v, D('UNIFORM_TEXEL_BUFFER'), D('UNIFORM_BUFFER')), If(And(has(f, B_STORAGE), v), D('STORAGE_TEXEL_BUFFER'), D('STORAGE_BUFFER')))


def req_img(get):
    return lambda c: [('an image has one use', img_use(get(c).get('flags')))]


def one(vec, i):
    """the element for index i: the only one there is, or the i-th"""
    i = z64(i)
    return If(vec.len == 1, b64(0), i)


def pick(E, vec, i):
    a = vec.get(b64(0))
    b = vec.get(z64(i))
    return lambda g: If(vec.len == 1, g(a), g(b))


def idx_ok(vec, i):
    return Or(vec.len == 1, ULT(z64(i), vec.len))


self_ = lambda c: c.this.get()


def ia(c):
    return c.f('imageAttach').get()


def ba(c):
    return c.f('bufferAttach').get()


def thisf(c, n):
    return c.f(n).get()


def imp(g, x):
    return Implies(g, x)


# ---- image attachments
def il(c):
    k, v = img_layout(c.E, thisf(c, 'flags'), thisf(c, 'wantedLayout'), c.av(0), c.av(1), c.av(2))
    return [('the layout is the one of the declared use', imp(k, c.res() == v))]


rimg = lambda c: [('an image attachment has exactly one use', img_use(thisf(c, 'flags')))]
rbuf = lambda c: [('a buffer attachment has exactly one use', buf_use(thisf(c, 'flags')))]
contract(IA + '::getImageLayout', ['P07'], np=3, modular=False, requires=rimg, ensures=il)
contract(IA + '::getAccessMask', ['P07'], np=2, modular=False, requires=rimg,
         ensures=lambda c: [('reads and writes of the declared use', c.res() == img_access(c.E, thisf(c, 'flags'), thisf(c, 'wantedLayout'), c.av(0), c.av(1)))])
contract(IA + '::getPipelineStageFlags', ['P07'], np=1, modular=False, requires=rimg,
         ensures=lambda c: [('stages of the declared use', c.res() == img_stage(c.E, thisf(c, 'flags'), thisf(c, 'wantedLayout'), c.av(0)))])
contract(IA + '::getDescriptorType', ['P07'], np=0, modular=False, requires=rimg,
         ensures=lambda c: [('storage images and sampled images', c.res() == img_desc(c.E, thisf(c, 'flags')))])
contract(IA + '::view', ['P25'], np=1, modular=False, requires=lambda c: [('the index exists', idx_ok(thisf(c, 'views'), c.av(0)))],
         ensures=lambda c: [('the only view, or the one of the index', c.E.eq_val(c.res(), thisf(c, 'views').get(simp(one(thisf(c, 'views'), c.av(0))))))])
# ---- buffer attachments
contract(BA + '::getAccessMask', ['P07'], np=2, modular=False, requires=rbuf,
         ensures=lambda c: [('reads and writes of the declared use', c.res() == buf_access(c.E, thisf(c, 'flags'), thisf(c, 'wantedAccess'), c.av(0), c.av(1)))])
contract(BA + '::getPipelineStageFlags', ['P07'], np=1, modular=False, requires=rbuf,
         ensures=lambda c: [('stages of the declared use', c.res() == buf_stage(c.E, thisf(c, 'flags'), thisf(c, 'wantedAccess'), c.av(0)))])
contract(BA + '::getDescriptorType', ['P07'], np=0, modular=False, requires=rbuf,
         ensures=lambda c: [('uniform/storage, buffer or texel view', c.res() == buf_desc(c.E, thisf(c, 'flags')))])


def bufs(E, b):
    return b.get('m_buffers')


def getwrite(c, f, b, view, rng, binding, count, index):
    E = c.E
    r = c.res()
    w = r.get('vk')
    arr = bufs(E, b)
    hd = arr.get(simp(one(arr, index)))
    v = has(f, B_VIEW)
    bi, bv, tv, ii = (r.get(n) for n in ('bufferInfo', 'bufferViewInfo', 'texelBufferView', 'imageInfo'))
    info = lambda x: And(x.get('buffer') == hd, x.get('offset') == rng.get('offset'), x.get('range') == rng.get('size'))
    return [('binding, element, count and type', And(w.get('dstBinding') == binding, w.get('dstArrayElement') == 0, w.get('descriptorCount') == count, w.get('descriptorType') == buf_desc(E, f))),
            ('a texel view is described by its view and its buffer range', Implies(v, And(bi.len == 0, bv.len == 1, tv.len == 1, info(bv.get(b64(0))), tv.get(b64(0)) == view))),
            ('a buffer is described by the instance of the index and its range', Implies(Not(v), And(bi.len == 1, bv.len == 0, tv.len == 0, info(bi.get(b64(0)))))),
            ('no image is described', ii.len == 0)]


contract(BA + '::getWrite', ['P07', 'P25'], np=3, modular=False,
         requires=lambda c: rbuf(c) + [('the index exists', idx_ok(bufs(c.E, thisf(c, 'buffer')), c.av(2)))],
         ensures=lambda c: getwrite(c, thisf(c, 'flags'), thisf(c, 'buffer'), thisf(c, 'view'), thisf(c, 'range'), c.av(0), c.av(1), c.av(2)))
# ---- attachments
isI = lambda c: has(thisf(c, 'flags'), A_IMAGE)
isB = lambda c: has(thisf(c, 'flags'), A_BUFFER)
inn = lambda c: has(thisf(c, 'flags'), A_IN)
out = lambda c: has(thisf(c, 'flags'), A_OUT)


def att_ok(c):
    i, b = isI(c), isB(c)
    return [('an attachment is an image or a buffer, not both', i != b),
            ('an image attachment has exactly one use', Implies(i, img_use(ia(c).get('flags')))),
            ('a buffer attachment has exactly one use', Implies(b, buf_use(ba(c).get('flags'))))]


def al(c):
    k, v = img_layout(c.E, ia(c).get('flags'), ia(c).get('wantedLayout'), c.av(0), inn(c), out(c))
    return [('the layout is the one of the declared use', imp(k, c.res() == v))]


contract(AT + '::getImageLayout', ['P07'], np=1, requires=lambda c: att_ok(c) + [('an image', isI(c))], ensures=al)
contract(AT + '::getAccessMask', ['P07'], np=0, requires=att_ok,
         ensures=lambda c: [('reads and writes of the declared use', c.res() == If(isI(c), img_access(c.E, ia(c).get('flags'), ia(c).get('wantedLayout'), inn(c), out(c)),
                                                                                  buf_access(c.E, ba(c).get('flags'), ba(c).get('wantedAccess'), inn(c), out(c))))])
contract(AT + '::getPipelineStageFlags', ['P07'], np=1, requires=att_ok,
         ensures=lambda c: [('stages of the declared use', c.res() == If(isI(c), img_stage(c.E, ia(c).get('flags'), ia(c).get('wantedLayout'), c.av(0)),
                                                                        buf_stage(c.E, ba(c).get('flags'), ba(c).get('wantedAccess'), c.av(0))))])
contract(AT + '::getDescriptorType', ['P07'], np=0, modular=False, requires=att_ok,
         ensures=lambda c: [('descriptor of the declared use', c.res() == If(isI(c), img_desc(c.E, ia(c).get('flags')), buf_desc(c.E, ba(c).get('flags'))))])
contract(AT + '::getBufferWrite', ['P07', 'P25'], np=1, modular=False,
         requires=lambda c: att_ok(c) + [('a buffer', isB(c)), ('the index exists', idx_ok(bufs(c.E, ba(c).get('buffer')), c.av(0)))],
         ensures=lambda c: getwrite(c, ba(c).get('flags'), ba(c).get('buffer'), ba(c).get('view'), ba(c).get('range'), thisf(c, 'binding'), b32(1), c.av(0)))
contract(AT + '::view', ['P25'], np=1, modular=False,
         requires=lambda c: [('an image or a buffer', isI(c) != isB(c)), ('the index exists', Implies(isI(c), idx_ok(ia(c).get('views'), c.av(0))))],
         ensures=lambda c: [('the view of the instance, none for a buffer',
                             If(isI(c), c.E.eq_val(c.res(), ia(c).get('views').get(simp(one(ia(c).get('views'), c.av(0))))), And(c.res().get('id') == 0, c.res().get('data') == 0)))])
contract(AT + '::buffer', ['P25'], np=1, modular=False,
         requires=lambda c: [('an image or a buffer', isI(c) != isB(c)), ('the index exists', Implies(isB(c), idx_ok(bufs(c.E, ba(c).get('buffer')), c.av(0))))],
         ensures=lambda c: [('the buffer of the instance, none for an image',
                             If(isB(c), c.res() == bufs(c.E, ba(c).get('buffer')).get(simp(one(bufs(c.E, ba(c).get('buffer')), c.av(0)))), c.res() == 0))])
contract(AT + '::getViewCount', ['P25'], np=0, modular=False, requires=lambda c: [('few views', ULT(ia(c).get('views').len, b64(1 << 32)))],
         ensures=lambda c: [('as many as views', z64(c.res()) == If(isI(c), ia(c).get('views').len, b64(0)))])
contract(AT + '::getBufferCount', ['P25'], np=0, modular=False, requires=lambda c: [('few buffers', ULT(bufs(c.E, ba(c).get('buffer')).len, b64(1 << 32)))],
         ensures=lambda c: [('as many as buffers', z64(c.res()) == If(isB(c), bufs(c.E, ba(c).get('buffer')).len, b64(0)))])


# ------------------------------------------------------------------------- declarations on a pass
FP = 'crg::FramePass::'
NOBIND = 0xFFFFFFFF
vec_images = lambda c: c.f('images')
vec_buffers = lambda c: c.f('buffers')


def appended(E, v0, v1, front):
    k = z3.BitVec('k!ad', 64)
    off = 1 if front else 0
    return And(v1.len == v0.len + 1, ForAll([k], Implies(ULT(k, v0.len), E.eq_val(v1.get(k + off), v0.get(k)))))


def declared(c, which, flags, use, bind, front=False, src=None, extra=None):
    """exactly one attachment is added, after the others (depth and stencil first), with the declared role"""
    E = c.E
    ref = vec_images(c) if which == 'image' else vec_buffers(c)
    oth = vec_buffers(c) if which == 'image' else vec_images(c)
    v0, v1 = c.old(ref), ref.get()
    at = simp(b64(0) if front else v0.len)
    a = v1.get(at)
    part = a.get('imageAttach' if which == 'image' else 'bufferAttach')
    out = [('one attachment is added, the others stay', appended(E, v0, v1, front)),
           ('it is read or written as declared', a.get('flags') == flags | b16(A_IMAGE if which == 'image' else A_BUFFER)),
           ('it belongs to the pass', a.get('pass') == c.this.addr),
           ('its binding', a.get('binding') == bind),
           ('its use', part.get('flags') == use)]
    return out + extra(part)


def img_extra(c, E, views, ops=None, sampler=None, clear=None, blend=None, layout=None):
    K = lambda n: K32(E, n)
    DC = [K('VK_ATTACHMENT_LOAD_OP_DONT_CARE'), K('VK_ATTACHMENT_STORE_OP_DONT_CARE')] * 2

    def f(p):
        o = ops or DC
        out = [('the views declared', E.eq_val(p.get('views'), views) if isinstance(views, VecV) else TRUE),
               ('load and store operations', And([p.get(n) == x for n, x in zip(('loadOp', 'storeOp', 'stencilLoadOp', 'stencilStoreOp'), o)]))]
        if sampler is not None:
            out.append(('the sampler declared', E.eq_val(p.get('samplerDesc'), sampler)))
        if clear is not None:
            out.append(('the clear value declared', E.eq_val(p.get('clearValue'), clear)))
        if blend is not None:
            out.append(('the blend state declared', E.eq_val(p.get('blendState'), blend)))
        if layout is not None:
            out.append(('the wanted layout', p.get('wantedLayout') == layout))
        return out
    return f


def buf_extra(c, E, buf, off, rng, view=None, access=None):
    def f(p):
        out = [('the buffer declared', E.eq_val(p.get('buffer'), buf)),
               ('the range declared', And(p.get('range').get('offset') == off, p.get('range').get('size') == rng)),
               ('the texel view declared', p.get('view') == (view if view is not None else b64(0)))]
        if access is not None:
            out.append(('the wanted access', E.eq_val(p.get('wantedAccess'), access)))
        return out
    return f


def havoc_att(which):
    def f(c):
        r = vec_images(c) if which == 'image' else vec_buffers(c)
        r.set(c.E.fresh(r.ty, which))
    return f


few = lambda c, which: [('few attachments', ULT((vec_images(c) if which == 'image' else vec_buffers(c)).get().len, b64(1 << 32)))]


def view_fmt(E, v):
    """the aspects of a view are aspects of its format"""
    d = view_data(E, v).field(E, 'info').get()
    a, f = d.get('subresourceRange').get('aspectMask'), d.get('format')
    D, S, C = (K32(E, 'VK_IMAGE_ASPECT_%s_BIT' % n) for n in ('DEPTH', 'STENCIL', 'COLOR'))
    dp, st = fmt_in(E, f, DEPTHS), fmt_in(E, f, STENCILS)
    return And(v.get('data') != 0, Or(And(a & C != 0, Not(dp), Not(st)), And(a & (D | S) != 0, dp, st), And(a & D != 0, dp), And(a & S != 0, st)))


someview = lambda c, i: [('at least one view', And(c.av(i).len != 0, ULT(c.av(i).len, b64(1 << 32)))), ('aspects of the view are those of its format', view_fmt(c.E, c.av(i).get(b64(0))))]
oneview = lambda c, i: [('aspects of the view are those of its format', view_fmt(c.E, c.av(i)))]
contract('crg::fpass::adjustName', np=2, assumed=True)


def bufdecl(name, flags, use, binding=None, view=False, access=False, flagarg=None):
    n = 3 + (binding is not None) + view + access + (flagarg is not None)
    vi = 1 if view else None
    bi = (1 + view) if binding is not None else None
    oi = 1 + view + (binding is not None)

    def ens(c):
        fl = b16(flags) | z3.Extract(15, 0, c.av(flagarg)) if flagarg is not None else b16(flags)
        return declared(c, 'buffer', fl, b16(use), c.av(bi) if bi is not None else b32(NOBIND),
                        extra=buf_extra(c, c.E, c.av(0), c.av(oi), c.av(oi + 1), c.av(vi) if view else None, c.av(oi + 2) if access else None))
    contract(FP + name, ['P07'], np=n, requires=lambda c: few(c, 'buffer'), ensures=ens, havoc=havoc_att('buffer'))


INOUT = A_IN | A_OUT
for v, sfx, vb in ((False, '', 0), (True, 'View', B_VIEW)):
    bufdecl('addImplicitBuffer' + sfx, A_IN, B_TRANSITION | vb, view=v, access=True)
    bufdecl('addUniformBuffer' + sfx, A_IN, B_UNIFORM | vb, binding=1, view=v)
    bufdecl('addInputStorageBuffer' + sfx, A_IN, B_STORAGE | vb, binding=1, view=v)
    bufdecl('addOutputStorageBuffer' + sfx, A_OUT, B_STORAGE | vb, binding=1, view=v)
    bufdecl('addClearableOutputStorageBuffer' + sfx, A_OUT | A_CLEAR, B_STORAGE | vb, binding=1, view=v)
    bufdecl('addInOutStorageBuffer' + sfx, INOUT, B_STORAGE | vb, binding=1, view=v)
bufdecl('addTransferInputBuffer', A_IN, B_TRANSFER)
bufdecl('addTransferOutputBuffer', A_OUT, B_TRANSFER)
bufdecl('addTransferInOutBuffer', INOUT, B_TRANSFER, flagarg=3)


def imgdecl(name, flags, use, bind=None, layout=None, layoutarg=None, sampler=None, flagarg=None, np=1):
    for single in (False, True):
        def ens(c, single=single):
            E = c.E
            fl = b16(flags) | z3.Extract(15, 0, c.av(flagarg)) if flagarg is not None else b16(flags)
            lay = c.av(layoutarg) if layoutarg is not None else K32(E, layout)
            ex = img_extra(c, E, c.av(0) if not single else None, sampler=c.av(sampler) if sampler is not None else None, layout=lay)
            if single:
                def ex(p, base=img_extra(c, E, None, sampler=c.av(sampler) if sampler is not None else None, layout=lay)):
                    vs = p.get('views')
                    return [('the view declared', And(vs.len == 1, E.eq_val(vs.get(b64(0)), c.av(0))))] + base_noviews(base, p)
            return declared(c, 'image', fl, b16(use), c.av(bind) if bind is not None else b32(NOBIND), extra=ex)
        contract(FP + name, ['P07'], np=np, sub='ImageViewId,' if single and np > 1 else ('ImageViewId)' if single else 'ImageViewIdArray'), key=FP + name + ('(view)' if single else '(views)'),
                 requires=lambda c, single=single: few(c, 'image') + (oneview(c, 0) if single else someview(c, 0)), ensures=ens, havoc=havoc_att('image'))


def base_noviews(base, p):
    return base(p)[1:]


imgdecl('addSampledView', A_IN, SAMPLED, bind=1, sampler=2, layout='VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL', np=3)
imgdecl('addImplicitColourView', A_IN, TRANSITION, layoutarg=1, np=2)
imgdecl('addImplicitDepthView', A_IN, TRANSITION | DEPTH, layoutarg=1, np=2)
imgdecl('addImplicitDepthStencilView', A_IN, TRANSITION | DEPTH | STENCIL, layoutarg=1, np=2)
imgdecl('addInputStorageView', A_IN, STORAGE, bind=1, layout='VK_IMAGE_LAYOUT_GENERAL', np=2)
imgdecl('addOutputStorageView', A_OUT, STORAGE, bind=1, layout='VK_IMAGE_LAYOUT_GENERAL', np=2)
imgdecl('addClearableOutputStorageView', A_OUT | A_CLEAR, STORAGE, bind=1, layout='VK_IMAGE_LAYOUT_GENERAL', np=2)
imgdecl('addInOutStorageView', INOUT, STORAGE, bind=1, layout='VK_IMAGE_LAYOUT_GENERAL', np=2)
imgdecl('addTransferInputView', A_IN, TRANSFER, layout='VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL', np=1)
imgdecl('addTransferOutputView', A_OUT, TRANSFER, layout='VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL', np=1)
imgdecl('addTransferInOutView', INOUT, TRANSFER, flagarg=1, layout='VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL', np=2)


def tgt(c, kind, single, flags, use, front, ops, clear=None, blend=None, views=None):
    E = c.E
    L, S = 'VK_ATTACHMENT_LOAD_OP_', 'VK_ATTACHMENT_STORE_OP_'
    o = [K32(E, L + x if i % 2 == 0 else S + x) if isinstance(x, str) else x for i, x in enumerate(ops)]
    base = img_extra(c, E, views, ops=o, clear=clear, blend=blend)

    def ex(p):
        if not single:
            return base(p)
        vs = p.get('views')
        return [('the view declared', And(vs.len == 1, E.eq_val(vs.get(b64(0)), views)))] + base_noviews(base, p)
    # loading an attachment reads it, storing it writes it
    LOAD, STORE = K32(E, L + 'LOAD'), K32(E, S + 'STORE')
    rd_, wr_ = Or(o[0] == LOAD, o[2] == LOAD), Or(o[1] == STORE, o[3] == STORE)
    fl = flags | If(rd_, b16(A_IN), b16(0)) | If(wr_, b16(A_OUT), b16(0))
    return declared(c, 'image', fl, use, b32(0), front=front, extra=ex)


def raw(name, np, front, use, i):
    """the general declarations: views at parameter i, operations after them"""
    for single in (False, True):
        pre = (lambda c: [('stencil use only', c.av(2) & b16(0xffff & ~(SIN | SOUT)) == 0)]) if i == 3 else (lambda c: [])

        def ens(c, single=single):
            if name == 'addColourView':
                return tgt(c, name, single, c.av(1), b16(0), False, [c.av(i + 1), c.av(i + 2), 'DONT_CARE', 'DONT_CARE'], clear=c.av(i + 4), blend=c.av(i + 5), views=c.av(i))
            u = b16(use) | (c.av(2) if i == 3 else b16(0))
            return tgt(c, name, single, c.av(1), u, front, [c.av(i + 1), c.av(i + 2), c.av(i + 3), c.av(i + 4)], clear=c.av(i + 6), views=c.av(i))
        contract(FP + name, ['P07'], np=np, sub='ImageViewId,' if single else 'ImageViewIdArray', key=FP + name + ('(view)' if single else '(views)'),
                 requires=lambda c, single=single, pre=pre: few(c, 'image') + (oneview(c, i) if single else someview(c, i)) + pre(c), ensures=ens, havoc=havoc_att('image'))


raw('addColourView', 8, False, 0, 2)
raw('addDepthView', 9, True, DEPTH, 2)
raw('addStencilView', 10, True, STENCIL, 3)
raw('addDepthStencilView', 10, True, DEPTH | STENCIL, 3)


def role(name, flags, use, front, ops, clear=None, blend=None):
    np = 1 + (clear is not None) + (blend is not None)
    for single in (False, True):
        contract(FP + name, ['P07'], np=np, sub='(crg::Id<' if single else '(std::vector<', key=FP + name + ('(view)' if single else '(views)'), modular=False,
                 requires=lambda c, single=single: few(c, 'image') + (oneview(c, 0) if single else someview(c, 0)),
                 ensures=lambda c, single=single: tgt(c, name, single, b16(flags), b16(use), front, ops, clear=c.av(1) if clear else None, blend=c.av(1) if blend else None, views=c.av(0)))


D = 'DONT_CARE'
role('addInputColourView', A_IN, 0, False, ['LOAD', D, D, D])
role('addInOutColourView', INOUT, 0, False, ['LOAD', 'STORE', D, D], blend=1)
role('addOutputColourView', A_OUT, 0, False, ['CLEAR', 'STORE', D, D], clear=1)
role('addInputDepthView', A_IN, DEPTH, True, ['LOAD', D, D, D])
role('addInOutDepthView', INOUT, DEPTH, True, ['LOAD', 'STORE', D, D])
role('addOutputDepthView', A_OUT, DEPTH, True, ['CLEAR', 'STORE', D, D], clear=1)
role('addInputStencilView', A_IN, STENCIL | SIN, True, [D, D, 'LOAD', D])
role('addInOutStencilView', INOUT, STENCIL | SIN | SOUT, True, [D, D, 'LOAD', 'STORE'])
role('addOutputStencilView', A_OUT, STENCIL | SOUT, True, [D, D, 'CLEAR', 'STORE'], clear=1)
role('addInputDepthStencilView', A_IN, DEPTH | STENCIL | SIN, True, ['LOAD', D, 'LOAD', D])
role('addInOutDepthStencilView', INOUT, DEPTH | STENCIL | SIN | SOUT, True, ['LOAD', 'STORE', 'LOAD', 'STORE'])
role('addOutputDepthStencilView', A_OUT, DEPTH | STENCIL | SOUT, True, ['CLEAR', 'STORE', 'CLEAR', 'STORE'], clear=1)
