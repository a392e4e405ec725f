"""Pipelines and descriptors of the passes that draw or dispatch (P09): bindings, pool, sets, pipelines."""
from .common import *
from .layout import *
from .handlers import *
from .barriers import ghost
from .attachments import one, has, SAMPLED, STORAGE, B_UNIFORM, B_STORAGE, B_VIEW
from . import submit as S
from .submit import names, ptrval, ident, set_fresh
from .passes import pass_of, att_wf, same

IDX = lambda c: c.av(2)


def uses(c, which):
    return pass_of(c).field(c.E, which).get()


def z32(x):
    return simp(z3.ZeroExt(32, x))


def slot(n, idx):
    """one program serves every instance"""
    return simp(If(n == 1, b64(0), z32(idx)))


def holder_wf(E, this, idx):
    base = this.field(E, 'm_baseConfig').get()
    P = base.get('m_programs')
    L = this.field(E, 'm_pipelines').get()
    D = this.field(E, 'm_descriptorSets').get()
    return [('a pipeline for every program', And(P.len == L.len, ULT(L.len, b64(1 << 32)), ULT(D.len, b64(1 << 32)))),
            ('the index is one of the instances', And(Or(P.len == 1, ULT(z32(idx), P.len)), ULT(z32(idx), D.len)))] + unwritten(D, idx)


def unwritten(D, idx):
    d = D.get(z32(idx))
    return [('a set that is missing has no writes', Implies(d.get('set') == 0, d.get('writes').len == 0))]


def no_writes(D, i):
    k = z3.BitVec('k!nw', 64)
    return ForAll([k], Implies(And(ULT(k, i), D.get(k).get('set') == 0), D.get(k).get('writes').len == 0))


def creator(c, h):
    return h.field(c.E, 'm_baseConfig').get().get('m_programCreator')


def prog_wf(c, h, idx):
    """where programs are made on demand, there is one for the index"""
    pc = creator(c, h)
    P = h.field(c.E, 'm_baseConfig').get().get('m_programs')
    return [('programs made on demand: one for the index', Implies(c.E.truth(pc.get('create')), And(ULT(idx, pc.get('maxCount')), pc.get('maxCount') != 0, ULT(z32(idx), P.len))))]


def pipe_hv(c):
    S.caches_havoc(c)
    for cls in ('crg::ContextResourcesCache', 'crg::ResourceHandler'):
        S.heap_havoc(c, cls, 'm_samplers')
    S.heap_havoc(c, 'crg::GraphContext', 'm_allocated')
    set_fresh(c, c.this.field(c.E, 'm_descriptorSets'))


def bind_post(c):
    E = c.E
    ev = [e for e in c.events() if e.name.startswith('vkCmd')]
    ok = names(ev) in (['vkCmdBindPipeline', 'vkCmdBindDescriptorSets'], ['vkCmdBindDescriptorSets', 'vkCmdBindPipeline'])
    out = [('binds a pipeline and its descriptor sets', z3.BoolVal(ok))]
    if not ok:
        return out
    p = [e for e in ev if e.name == 'vkCmdBindPipeline'][0].args
    d = [e for e in ev if e.name == 'vkCmdBindDescriptorSets'][0].args
    bp = c.f('m_bindingPoint').get()
    L, D = c.f('m_pipelines').get(), c.f('m_descriptorSets').get()
    n = c.f('m_baseConfig').get().get('m_programs').len
    return out + [('into the command buffer given, for the kind of the pass', And(p['commandBuffer'] == c.av(1), d['commandBuffer'] == c.av(1), p['pipelineBindPoint'] == bp, d['pipelineBindPoint'] == bp)),
                  ('the pipeline of the index', p['pipeline'] == L.get(slot(n, IDX(c)))),
                  ('the descriptor set of the index', And(d['firstSet'] == 0, d['descriptorSetCount'] == 1, d['dynamicOffsetCount'] == 0, d['layout'] == c.f('m_pipelineLayout').get(), ptrval(d['pDescriptorSets']) == D.get(z32(IDX(c))).get('set')))]


def ds_pre(c):
    D = c.f('m_descriptorSets').get()
    n = z32(c.av(0))
    return [('the index is one of the instances', And(ULT(n, D.len), ULT(D.len, b64(1 << 32)))), ] + unwritten(D, c.av(0)) + few_uses(c) + ds_uses(c, c.av(0))


def few_uses(c):
    return [('fewer than 2^32 declared uses', And(ULT(uses(c, 'images').len, b64(1 << 32)), ULT(uses(c, 'buffers').len, b64(1 << 32))))]


def ds_uses(c, idx):
    out = []
    for w in ('images', 'buffers'):
        V = uses(c, w)
        k = z3.BitVec('k!ds' + w, 64)
        out.append(('every declared use is well-formed (%s)' % w, ForAll([k], Implies(ULT(k, V.len), att_wf(c.E, V.get(k), w, idx)))))
    return out



# what a declared use means for the descriptors
def bound(a, which):
    """the declared use is read or written through a descriptor"""
    if which == 'images':
        f = a.get('imageAttach').get('flags')
        return Or(has(f, SAMPLED), has(f, STORAGE))
    f = a.get('bufferAttach').get('flags')
    return Or(has(f, B_UNIFORM), has(f, B_STORAGE))


def kind(E, a, which):
    T = lambda n: K32(E, 'VK_DESCRIPTOR_TYPE_' + n)
    if which == 'images':
        return If(has(a.get('imageAttach').get('flags'), SAMPLED), T('COMBINED_IMAGE_SAMPLER'), T('STORAGE_IMAGE'))
    f = a.get('bufferAttach').get('flags')
    u, v = has(f, B_UNIFORM), has(f, B_VIEW)
    return If(u, If(v, T('UNIFORM_TEXEL_BUFFER'), T('UNIFORM_BUFFER')), If(v, T('STORAGE_TEXEL_BUFFER'), T('STORAGE_BUFFER')))


def same_at(V, V0, which):
    k = z3.BitVec('k!sa', 64)
    return ForAll([k], Implies(which(k), z3.Select(V.array(), k) == z3.Select(V0.array(), k)))


def appended(E, V0, V, cond, is_new):
    """V is V0, with one element described by is_new at the end when cond holds"""
    return [('one more entry exactly for what shaders read or write', V.len == V0.len + If(cond, b64(1), b64(0))),
            ('what was there stays', same_at(V, V0, lambda k: ULT(k, V0.len)))] + [(n, Implies(cond, g)) for n, g in is_new(V.get(V0.len))]


# ------------------------------------------------------------------------- bindings and pool
def stages(c):
    E = c.E
    all_ = b32(0)
    for n in ('VERTEX', 'TESSELLATION_CONTROL', 'TESSELLATION_EVALUATION', 'GEOMETRY', 'FRAGMENT'):
        all_ = all_ | K32(E, 'VK_SHADER_STAGE_%s_BIT' % n)
    return If(c.f('m_bindingPoint').get() == K32(E, 'VK_PIPELINE_BIND_POINT_COMPUTE'), K32(E, 'VK_SHADER_STAGE_COMPUTE_BIT'), all_)


def fill_iter(which):
    def f(c, ev):
        E = c.E
        a = uses(c, which).get(c.i0)
        B = c.f('m_descriptorBindings')
        new = lambda e: [('a binding of the declared number, type and stages, one descriptor', And(e.get('binding') == a.get('binding'), e.get('descriptorType') == kind(E, a, which), e.get('descriptorCount') == 1, e.get('stageFlags') == stages(c)))]
        return appended(E, c.b(B), B.get(), bound(a, which), new)
    return f


def wf_any(c):
    """declared uses are well-formed, for the first instance"""
    return few_uses(c) + ds_uses(c, b32(0))


def fill_hv(c):
    set_fresh(c, c.f('m_descriptorBindings'))


contract('crg::PipelineHolder::doFillDescriptorBindings', ['P09'], requires=wf_any, havoc=fill_hv, emits=lambda c: S.ghost_ev(c, 'bindings', this=ident(c.this)),
         ensures=lambda c: [('at most one binding for each declared use', ULE(c.f('m_descriptorBindings').get().len, uses(c, 'images').len + uses(c, 'buffers').len))],
         loops={0: LoopSpec(lambda c: [('at most one each', ULE(c.f('m_descriptorBindings').get().len, c.i))], iter=fill_iter('images'), label='images'),
                1: LoopSpec(lambda c: [('at most one each', ULE(c.f('m_descriptorBindings').get().len, uses(c, 'images').len + c.i))], iter=fill_iter('buffers'), label='buffers')})


def sizes_local(c):
    return c.by_type(lambda t: t.k == 'vector' and t.a.k == 'struct' and t.a.name == 'VkDescriptorPoolSize')


def distinct(c, V):
    i, j = z3.BitVecs('i!dt j!dt', 64)
    return [('one size for each type', ForAll([i, j], Implies(And(ULT(i, V.len), ULT(j, V.len), i != j), V.get(i).get('type') != V.get(j).get('type'))))]


def sizes_iter(c, ev):
    E = c.E
    b = c.a(0).get().get(c.i0)
    R = sizes_local(c)
    V, V0 = R.get(), c.b(R)
    ty, n = b.get('descriptorType'), b.get('descriptorCount') * c.a(1).get()
    k = z3.BitVec('k!sz', 64)
    known = lambda V: z3.Exists([k], And(ULT(k, V.len), V.get(k).get('type') == ty))
    old = lambda j: V0.get(j)
    return [('the room for the other types stays', ForAll([k], Implies(And(ULT(k, V0.len), V0.get(k).get('type') != ty), E.eq_val(V.get(k), V0.get(k))))),
            ('the room for its type grows by what it needs', ForAll([k], Implies(And(ULT(k, V0.len), V0.get(k).get('type') == ty), And(V.get(k).get('type') == ty, V.get(k).get('descriptorCount') == V0.get(k).get('descriptorCount') + n)))),
            ('a type not seen before gets what it needs', Or(And(V.len == V0.len, known(V0)), And(V.len == V0.len + 1, Not(known(V0)), V.get(V0.len).get('type') == ty, V.get(V0.len).get('descriptorCount') == n)))]


contract('crg::getBindingsSizes', ['P09'], trace_ok=True, emits=lambda c: S.ghost_ret(c, 'sizes', c.res(), bindings=c.a(0).get(), sets=c.av(1)),
         ensures=lambda c: distinct(c, c.res()),
         loops={0: LoopSpec(lambda c: distinct(c, sizes_local(c).get()) + [('at most one for each binding', ULE(sizes_local(c).get().len, c.i))], iter=sizes_iter, label='bindings')})


# ------------------------------------------------------------------------- descriptor sets
def ds_inv(c):
    D, D0 = c.f('m_descriptorSets').get(), c.old(c.f('m_descriptorSets'))
    idx = z32(c.entry(c.a(0)) if hasattr(c, 'entry') else c.av(0))
    return [('as many instances as before', D.len == D0.len), ('sets of other instances stay', same_at(D, D0, lambda k: And(ULT(k, D0.len), k != idx)))]


def writes_of(D, idx):
    return D.get(z32(idx)).get('writes')


def write_is(E, e, a, which):
    vk = e.get('vk')
    return [('one descriptor, of the declared binding and type', And(vk.get('dstBinding') == a.get('binding'), vk.get('dstArrayElement') == 0, vk.get('descriptorCount') == 1, vk.get('descriptorType') == kind(E, a, which), e.get('needsUpdate')))]


def img_iter(c, ev):
    E = c.E
    a = uses(c, 'images').get(c.i0)
    idx = c.entry(c.a(0))
    p = a.get('imageAttach')
    v = p.get('views').get(simp(one(p.get('views'), idx)))
    smp, vw = [e for e in ev if e.name == 'createSampler'], [e for e in ev if e.name == 'createImageView']
    D = c.f('m_descriptorSets')

    def new(e):
        I = e.get('imageInfo')
        out = write_is(E, e, a, 'images') + [('one image', I.len == 1), ('looks at the view of the index, once', z3.BoolVal(len(vw) == 1)), ('a sampler for what is sampled, none otherwise', z3.BoolVal(len(smp) <= 1))]
        if len(vw) != 1 or len(smp) > 1:
            return out
        i = I.get(b64(0))
        sampled = has(p.get('flags'), SAMPLED)
        return out + [('the image view is the one of the view of the index', And(E.eq_val(vw[0].args['view'], v), i.get('imageView') == vw[0].ret)),
                      ('with the declared sampler, in the layout of its use', If(sampled, And(i.get('imageLayout') == K32(E, 'VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL'), And(E.eq_val(smp[0].args['desc'], p.get('samplerDesc')), i.get('sampler') == smp[0].ret) if smp else z3.BoolVal(False)), And(i.get('imageLayout') == K32(E, 'VK_IMAGE_LAYOUT_GENERAL'), i.get('sampler') == 0)))]
    return appended(E, writes_of(c.b(D), idx), writes_of(D.get(), idx), bound(a, 'images'), new)


def buf_iter(c, ev):
    E = c.E
    a = uses(c, 'buffers').get(c.i0)
    idx = c.entry(c.a(0))
    p = a.get('bufferAttach')
    B = p.get('buffer').get('m_buffers')
    buf = B.get(simp(one(B, idx)))
    r = p.get('range')
    D = c.f('m_descriptorSets')

    def new(e):
        view = has(p.get('flags'), B_VIEW)
        I, T = e.get('bufferInfo'), e.get('texelBufferView')
        b = I.get(b64(0))
        return write_is(E, e, a, 'buffers') + [('a buffer view by its view, a buffer by the declared range of the buffer of the index', If(view, And(T.len == 1, T.get(b64(0)) == p.get('view')), And(I.len == 1, b.get('buffer') == buf, b.get('offset') == r.get('offset'), b.get('range') == r.get('size'))))]
    return appended(E, writes_of(c.b(D), idx), writes_of(D.get(), idx), bound(a, 'buffers'), new)


def ds_post(c):
    E = c.E
    ev = c.events()
    idx = c.av(0)
    D, D0 = c.f('m_descriptorSets').get(), c.old(c.f('m_descriptorSets'))
    al, up = [e for e in ev if e.name == 'vkAllocateDescriptorSets'], [e for e in ev if e.name == 'vkUpdateDescriptorSets']
    had = D0.get(z32(idx)).get('set') != 0
    out = ds_inv(c) + [('allocated and written exactly when it was missing', And(had == z3.BoolVal(not ev), Not(had) == z3.BoolVal(len(al) == 1), Not(had) == z3.BoolVal(len(up) == 1))),
                       ('a set that was there stays', Implies(had, E.eq_val(D.get(z32(idx)), D0.get(z32(idx)))))]
    if len(al) != 1 or len(up) != 1:
        return out
    i = ptrval(al[0].args['pAllocateInfo'])
    d = D.get(z32(idx))
    W = up[0].args['pDescriptorWrites']
    return out + [('one set, from the pool and of the layout of the pass', And(i.get('descriptorPool') == c.f('m_descriptorSetPool').get(), i.get('descriptorSetCount') == 1, S.ptr_get(i.get('pSetLayouts')) == c.f('m_descriptorSetLayout').get())),
                  ('every write is submitted', And(z3.ZeroExt(32, up[0].args['descriptorWriteCount']) == d.get('writes').len, up[0].args['descriptorCopyCount'] == 0))]


def upd_iter(c, ev):
    E = c.E
    idx = c.entry(c.a(0))
    D = c.f('m_descriptorSets')
    W, W0 = writes_of(D.get(), idx), writes_of(c.b(D), idx)
    e, e0 = W.get(c.i0), W0.get(c.i0)
    keep = [n for n in ('dstBinding', 'dstArrayElement', 'descriptorCount', 'descriptorType')]
    return [('the write designates the set of the index', Implies(e0.get('needsUpdate'), e.get('vk').get('dstSet') == D.get().get(z32(idx)).get('set'))),
            ('and stays what it was', And(*[e.get('vk').get(n) == e0.get('vk').get(n) for n in keep], *[E.eq_val(e.get(n), e0.get(n)) for n in ('imageInfo', 'bufferInfo', 'texelBufferView')])),
            ('other writes stay', And(W.len == W0.len, same_at(W, W0, lambda k: And(ULT(k, W0.len), k != c.i0))))]


def mk_same(c, R, n):
    I = c.a(0).get()
    k = z3.BitVec('k!mk', 64)
    return [('as many', R.len == n), ('each is the device form of its element', ForAll([k], Implies(ULT(k, n), c.E.eq_val(R.get(k), I.get(k).get('vk')))))]


contract('crg::makeVkArray', ['P09'], np=1, sub='WriteDescriptorSet', ensures=lambda c: mk_same(c, c.res(), c.a(0).get().len),
         loops={0: LoopSpec(lambda c: mk_same(c, c.by_type(lambda t: t.k == 'vector' and t.a.name == 'VkWriteDescriptorSet').get(), c.i))})
contract('crg::PipelineHolder::createDescriptorSet', ['P09'], requires=ds_pre, may_throw=lambda c: TRUE, havoc=pipe_hv, trace_ok=True, ensures=ds_post, emits=lambda c: S.ghost_ev(c, 'descriptors', this=ident(c.this), index=c.av(0)),
         call_ensures=lambda c: [('as many instances as before', c.f('m_descriptorSets').get().len == c.old(c.f('m_descriptorSets')).len)],
         loops={0: LoopSpec(ds_inv, iter=img_iter, label='images'), 1: LoopSpec(ds_inv, iter=buf_iter, label='buffers'), 2: LoopSpec(ds_inv, iter=upd_iter, label='updates')})
contract('crg::PipelineHolder::recordInto', ['P19'], requires=lambda c: holder_wf(c.E, c.this, IDX(c)) + few_uses(c) + ds_uses(c, IDX(c)), may_throw=lambda c: TRUE, havoc=pipe_hv, trace_ok=True, ensures=bind_post,
         call_ensures=lambda c: [('as many instances as before', c.f('m_descriptorSets').get().len == c.old(c.f('m_descriptorSets')).len)], emits=lambda c: S.ghost_ev(c, 'bind', this=ident(c.this), cmd=c.av(1), index=IDX(c)))


# ------------------------------------------------------------------------- layout, pool: made once, for the bindings
def gfn(c, name):
    g = S.obj(c, c.this, 'm_context', 'crg::GraphContext')
    return g, S.fn_ptr(g, c.E, name)


def vk_one(c, name):
    ev = [e for e in c.events() if e.name.startswith('vk')]
    _, f = gfn(c, name)
    there = f.have if hasattr(f, 'have') else None
    return ev, z3.BoolVal(names(ev) == [name] or not ev)


def alloc_hv(*fields):
    def f(c):
        S.heap_havoc(c, 'crg::GraphContext', 'm_allocated')
        for n in fields:
            set_fresh(c, c.f(n))
    return f


def made(name, field, describe):
    def f(c):
        E = c.E
        ev, ok = vk_one(c, name)
        out = [('creates at most that', ok)]
        if not ev:
            return out + [('and otherwise changes nothing', c.E.eq_val(c.f(field).get(), c.old(c.f(field))))]
        if not z3.is_true(ok):
            return out
        return out + describe(c, ptrval(ev[0].args['pCreateInfo']))
    return f


def whole(c, n, p, V):
    """count and address of a whole vector"""
    P = p.vec.get() if hasattr(p, 'vec') else None
    at0 = p.idx == 0 if P is not None else z3.BoolVal(isinstance(p, z3.ExprRef))
    return And(z3.ZeroExt(32, n) == V.len, at0, same_at(P, V, lambda k: ULT(k, V.len)) if P is not None else TRUE, P.len == V.len if P is not None else TRUE)


def one_more(c, V, X, first):
    """V: the first entry, then all of X"""
    k = z3.BitVec('k!om', 64)
    return And(V.len == X.len + 1, V.get(b64(0)) == first, ForAll([k], Implies(ULT(k, X.len), V.get(k + 1) == X.get(k))))


def few_layouts(c):
    b = c.f('m_baseConfig').get()
    return [('fewer than 2^31 layouts and push constant ranges', And(ULT(b.get('m_layouts').len, b64(1 << 31)), ULT(b.get('m_pushConstants').len, b64(1 << 31))))]


def layout_desc(c, i):
    b = c.f('m_baseConfig').get()
    p = i.get('pSetLayouts')
    V = p.vec.get() if hasattr(p, 'vec') else None
    if V is None:
        return [('the layouts are passed as a vector', z3.BoolVal(False))]
    return [('the layout of the pass first, then the configured ones', And(z3.ZeroExt(32, i.get('setLayoutCount')) == V.len, p.idx == 0, one_more(c, V, b.get('m_layouts'), c.f('m_descriptorSetLayout').get()))),
            ('all push constant ranges', whole(c, i.get('pushConstantRangeCount'), i.get('pPushConstantRanges'), b.get('m_pushConstants')))]


def pool_desc(c, i):
    D = c.f('m_descriptorSets').get()
    z = [e for e in c.events() if e.name == 'sizes']
    out = [('room for one set of every instance', z3.ZeroExt(32, i.get('maxSets')) == D.len), ('sized once', z3.BoolVal(len(z) == 1))]
    if len(z) == 1:
        out.append(('with the descriptors that many sets of the bindings need', And(c.E.eq_val(z[0].args['bindings'], c.f('m_descriptorBindings').get()), z3.ZeroExt(32, z[0].args['sets']) == D.len, whole(c, i.get('poolSizeCount'), i.get('pPoolSizes'), z[0].ret))))
    return out


contract('crg::PipelineHolder::doCreateDescriptorSetLayout', ['P09'], may_throw=lambda c: TRUE, trace_ok=True, havoc=alloc_hv('m_descriptorSetLayout'), emits=lambda c: S.ghost_ev(c, 'setLayout', this=ident(c.this)), call_ensures=lambda c: [('a successful creation gives a handle', c.f('m_descriptorSetLayout').get() != 0)],
         requires=lambda c: [('fewer than 2^32 bindings', ULT(c.f('m_descriptorBindings').get().len, b64(1 << 32)))],
         ensures=made('vkCreateDescriptorSetLayout', 'm_descriptorSetLayout', lambda c, i: [('of all the bindings', whole(c, i.get('bindingCount'), i.get('pBindings'), c.f('m_descriptorBindings').get()))]))
contract('crg::PipelineHolder::doCreatePipelineLayout', ['P09'], may_throw=lambda c: TRUE, trace_ok=True, havoc=alloc_hv('m_pipelineLayout'), emits=lambda c: S.ghost_ev(c, 'pipelineLayout', this=ident(c.this)), call_ensures=lambda c: [('a successful creation gives a handle', c.f('m_pipelineLayout').get() != 0)],
         requires=few_layouts, ensures=made('vkCreatePipelineLayout', 'm_pipelineLayout', layout_desc))
contract('crg::PipelineHolder::doCreateDescriptorPool', ['P09'], may_throw=lambda c: TRUE, trace_ok=True, havoc=alloc_hv('m_descriptorSetPool'), emits=lambda c: S.ghost_ev(c, 'pool', this=ident(c.this)), call_ensures=lambda c: [],
         requires=lambda c: [('there is a descriptor set layout', c.f('m_descriptorSetLayout').get() != 0), ('fewer than 2^32 instances and bindings', And(ULT(c.f('m_descriptorSets').get().len, b64(1 << 32)), ULT(c.f('m_descriptorBindings').get().len, b64(1 << 32))))],
         ensures=made('vkCreateDescriptorPool', 'm_descriptorSetPool', pool_desc))


def init_post(c):
    ev = names(c.events())
    made_before = c.old(c.f('m_pipelineLayout')) != 0
    steps = ['bindings', 'setLayout', 'pipelineLayout', 'pool']
    order = all(n in steps for n in ev) and len(set(ev)) == len(ev) and (not ev or (set(ev) == set(steps) and ev.index('bindings') < ev.index('setLayout') < ev.index('pipelineLayout') and ev.index('setLayout') < ev.index('pool')))
    return [('bindings, then their layout, then what needs it', z3.BoolVal(order)), ('once', made_before == z3.BoolVal(not ev))]


def init_hv(c):
    alloc_hv('m_descriptorBindings', 'm_descriptorSetLayout', 'm_pipelineLayout', 'm_descriptorSetPool')(c)


contract('crg::PipelineHolder::initialise', ['P09'], may_throw=lambda c: TRUE, trace_ok=True, havoc=init_hv, emits=lambda c: S.ghost_ev(c, 'pipelineInit', this=ident(c.this)), call_ensures=lambda c: [('the layout is there, for as many instances as before', c.f('m_descriptorSets').get().len == c.old(c.f('m_descriptorSets')).len)],
         requires=lambda c: wf_any(c) + few_layouts(c) + [('fewer than 2^32 instances', ULT(c.f('m_descriptorSets').get().len, b64(1 << 32))), ('fewer than 2^31 declared uses', And(ULT(uses(c, 'images').len, b64(1 << 31)), ULT(uses(c, 'buffers').len, b64(1 << 31))))],
         ensures=init_post)


# ------------------------------------------------------------------------- graphics pipelines
def holder_of(c):
    return c.f('m_pipeline')


def gfx_hv(c):
    h = holder_of(c)
    S.heap_havoc(c, 'crg::GraphContext', 'm_allocated')
    set_fresh(c, h.field(c.E, 'm_pipelines'))
    set_fresh(c, h.field(c.E, 'm_baseConfig'))


def kept(c, idx):
    """the other pipelines and programs stay, and there are as many as before"""
    E = c.E
    h = holder_of(c)
    L, B = h.field(E, 'm_pipelines'), h.field(E, 'm_baseConfig')
    P, P0 = B.get().get('m_programs'), c.old(B).get('m_programs')
    s = slot(P0.len, idx)
    mk = E.truth(c.old(B).get('m_programCreator').get('create'))
    return [('as many pipelines and programs as before', And(L.get().len == c.old(L).len, P.len == P0.len)),
            ('a pipeline that is there stays, and so do those of other instances', And(Implies(c.old(L).get(s) != 0, L.get().get(s) == c.old(L).get(s)), same_at(L.get(), c.old(L), lambda k: And(ULT(k, L.get().len), k != s)))),
            ('programs of other instances stay', same_at(P, P0, lambda k: And(ULT(k, P0.len), Or(Not(mk), k != z32(idx))))),
            ('the rest of the configuration stays', And(*[E.eq_val(B.get().get(n), c.old(B).get(n)) for n in ('m_programCreator', 'm_layouts', 'm_pushConstants')]))]


def gfx_post(inputs):
    def f(c):
        E = c.E
        idx = c.av(0)
        h = holder_of(c)
        L, P = h.field(E, 'm_pipelines'), h.field(E, 'm_baseConfig').get().get('m_programs')
        s = slot(P.len, idx)
        had = c.old(L).get(s) != 0
        ev = [e for e in c.events() if e.name.startswith('vk')]
        out = kept(c, idx) + [('creates at most one pipeline', z3.BoolVal(names(ev) in ([], ['vkCreateGraphicsPipelines']))), ('nothing where there is one', Implies(had, z3.BoolVal(not ev)))]
        if names(ev) != ['vkCreateGraphicsPipelines']:
            return out
        a = ev[0].args
        i = ptrval(a['pCreateInfos'])
        st = lambda n, f: E.eq_val(S.ptr_get(i.get(n)), c.f(f).get())
        p = P.get(s)
        return out + [('one pipeline', a['createInfoCount'] == 1),
                      ('of all the stages of the program of the index', Implies(ULT(p.len, b64(1 << 32)), whole(c, i.get('stageCount'), i.get('pStages'), p))),
                      ('with the layout of the pass, in its render pass', And(i.get('layout') == h.field(E, 'm_pipelineLayout').get(), i.get('renderPass') == c.f('m_renderPass').get(), i.get('subpass') == 0)),
                      ('with the states of the pass', And(st('pInputAssemblyState', 'm_iaState'), st('pViewportState', 'm_vpState'), st('pRasterizationState', 'm_rsState'), st('pMultisampleState', 'm_msState'), st('pColorBlendState', 'm_blendState'), E.eq_val(S.ptr_get(i.get('pDepthStencilState')), c.f('m_config').get().get('depthStencilState')))),
                      ('with the vertex inputs of the pass', inputs(c, i))]
    return f


def gfx_pre(c):
    h = holder_of(c)
    return holder_wf(c.E, h, c.av(0)) + prog_wf(c, h, c.av(0))


def gfx_ce(c):
    return kept(c, c.av(0))


contract('crg::RenderMeshHolder::doCreatePipeline', ['P09'], may_throw=lambda c: TRUE, trace_ok=True, havoc=gfx_hv, requires=gfx_pre, call_ensures=gfx_ce, emits=lambda c: S.ghost_ev(c, 'pipeline', this=ident(c.this), index=c.av(0)),
         ensures=gfx_post(lambda c, i: c.E.eq_val(S.ptr_get(i.get('pVertexInputState')), c.f('m_config').get().get('vertexBuffer').get('inputState'))))
contract('crg::RenderQuadHolder::doCreatePipeline', ['P09'], may_throw=lambda c: TRUE, trace_ok=True, havoc=gfx_hv, requires=gfx_pre, call_ensures=gfx_ce, emits=lambda c: S.ghost_ev(c, 'pipeline', this=ident(c.this), index=c.av(0)),
         ensures=gfx_post(lambda c, i: TRUE))


# ------------------------------------------------------------------------- compute pipelines
def has_stage(c):
    """assumed of users: a compute program has its stage"""
    P = c.f('m_pipeline').field(c.E, 'm_baseConfig').get().get('m_programs')
    k = z3.BitVec('k!hs', 64)
    return [('every program that is there has a stage', Implies(Not(c.E.truth(creator(c, c.f('m_pipeline')).get('create'))), ForAll([k], Implies(ULT(k, P.len), P.get(k).len != 0))))]


def comp_setup(c):
    c.E.cb_assume = {'create': lambda E, ret: ret.len != 0}


def comp_post(c):
    E = c.E
    idx = c.av(0)
    h = holder_of(c)
    L, P = h.field(E, 'm_pipelines'), h.field(E, 'm_baseConfig').get().get('m_programs')
    s = slot(P.len, idx)
    had = c.old(L).get(s) != 0
    ev = [e for e in c.events() if e.name.startswith('vk')]
    out = kept(c, idx) + [('creates at most one pipeline', z3.BoolVal(names(ev) in ([], ['vkCreateComputePipelines']))), ('nothing where there is one', Implies(had, z3.BoolVal(not ev)))]
    if names(ev) != ['vkCreateComputePipelines']:
        return out
    a = ev[0].args
    i = ptrval(a['pCreateInfos'])
    return out + [('one pipeline', a['createInfoCount'] == 1), ('of the stage of the program of the index', E.eq_val(i.get('stage'), P.get(s).get(b64(0)))), ('with the layout of the pass', i.get('layout') == h.field(E, 'm_pipelineLayout').get())]


contract('crg::ComputePass::doCreatePipeline', ['P09'], may_throw=lambda c: TRUE, trace_ok=True, havoc=gfx_hv, setup=comp_setup, requires=lambda c: gfx_pre(c) + has_stage(c), ensures=comp_post, call_ensures=gfx_ce, emits=lambda c: S.ghost_ev(c, 'pipeline', this=ident(c.this), index=c.av(0)))


# ------------------------------------------------------------------------- end of life
def clean_hv(c):
    alloc_hv('m_descriptorBindings', 'm_descriptorSets', 'm_descriptorSetPool', 'm_pipelines', 'm_pipelineLayout', 'm_descriptorSetLayout')(c)


def gone(V, i, f=lambda x: x):
    k = z3.BitVec('k!gn', 64)
    return ForAll([k], Implies(ULT(k, i), f(V.get(k)) == 0))


def sets_inv(c):
    D = c.f('m_descriptorSets')
    return [('sets so far are forgotten', And(D.get().len == c.old(D).len, gone(D.get(), c.i, lambda x: x.get('set')))), ('and nothing written in any missing one', no_writes(D.get(), D.get().len))]


def pipes_inv(c):
    L = c.f('m_pipelines')
    return [('pipelines so far are forgotten, others stay', And(L.get().len == c.old(L).len, gone(L.get(), c.i), same_at(L.get(), c.old(L), lambda k: And(ULE(c.i, k), ULT(k, L.get().len)))))]


def pipe_iter(c, ev):
    p = c.b(c.f('m_pipelines')).get(c.i0)
    d = [e for e in ev if e.name.startswith('vk')]
    return [('destroys it exactly when it is there', And(z3.BoolVal(names(d) in ([], ['vkDestroyPipeline'])), (p != 0) == z3.BoolVal(len(d) == 1)))] + [('that pipeline', e.args['pipeline'] == p) for e in d if e.name == 'vkDestroyPipeline']


def clean_post(c):
    E = c.E
    ev = c.events()
    out = []
    for n, f, a in (('vkDestroyDescriptorPool', 'm_descriptorSetPool', 'descriptorPool'), ('vkDestroyPipelineLayout', 'm_pipelineLayout', 'pipelineLayout'), ('vkDestroyDescriptorSetLayout', 'm_descriptorSetLayout', 'descriptorSetLayout')):
        old = c.old(c.f(f))
        d = [e for e in ev if e.name == n]
        out += [(n + ' exactly when there is one, which is forgotten', And(z3.BoolVal(len(d) <= 1), (old != 0) == z3.BoolVal(len(d) == 1), c.f(f).get() == 0))] + [(n + ' of that one', e.args[a] == old) for e in d]
    D, L = c.f('m_descriptorSets').get(), c.f('m_pipelines').get()
    return out + [('no set and no pipeline is left', And(gone(D, D.len, lambda x: x.get('set')), gone(L, L.len))), ('no binding is left', c.f('m_descriptorBindings').get().len == 0), ('sets to come start without writes', no_writes(D, D.len))]


contract('crg::PipelineHolder::cleanup', ['P09'], trace_ok=True, requires=lambda c: [('a set that is missing has no writes', no_writes(c.f('m_descriptorSets').get(), c.f('m_descriptorSets').get().len))], havoc=clean_hv, ensures=clean_post, call_ensures=lambda c: [('nothing is left', And(c.f('m_descriptorBindings').get().len == 0, c.f('m_descriptorSetPool').get() == 0, c.f('m_pipelineLayout').get() == 0, c.f('m_descriptorSetLayout').get() == 0))],
         emits=lambda c: S.ghost_ev(c, 'cleanup', this=ident(c.this)),
         loops={0: LoopSpec(sets_inv, label='sets'), 1: LoopSpec(pipes_inv, iter=pipe_iter, label='pipelines')})


def reset_pre(c):
    L, P = c.f('m_pipelines').get(), c.f('m_baseConfig').get().get('m_programs')
    s = slot(L.len, c.av(1))
    return [('the index is one of the pipelines, or there is only one', And(P.len == L.len, ULT(L.len, b64(1 << 32)), ULT(s, L.len)))]


def reset_hv(c):
    set_fresh(c, c.f('m_pipelines'))
    set_fresh(c, c.f('m_baseConfig'))
    set_fresh(c, c.a(0))
    S.heap_havoc(c, 'crg::GraphContext', 'delQueue')


def reset_post(c):
    E = c.E
    L, L0 = c.f('m_pipelines').get(), c.old(c.f('m_pipelines'))
    B, B0 = c.f('m_baseConfig').get(), c.old(c.f('m_baseConfig'))
    P, P0 = B.get('m_programs'), B0.get('m_programs')
    s = slot(L0.len, c.av(1))
    Q = S.obj(c, c.this, 'm_context', 'crg::GraphContext').field(E, 'delQueue')
    q, q0 = Q.get().get('m_toDelete'), c.old(Q).get('m_toDelete')
    cfg = c.av(0)
    return [('issues no device command now', z3.BoolVal(not [e for e in c.events() if e.name.startswith('vk')])),
            ('the pipeline of the index is forgotten, others stay', And(L.len == L0.len, L.get(s) == 0, same_at(L, L0, lambda k: And(ULT(k, L0.len), k != s)))),
            ('it is queued for deletion exactly when there was one', And(q.len == q0.len + If(L0.get(s) != 0, b64(1), b64(0)), same_at(q, q0, lambda k: ULT(k, q0.len)))),
            ('the program of the index becomes what is given, if anything', And(P.len == P0.len, same_at(P, P0, lambda k: And(ULT(k, P0.len), Or(k != s, cfg.len == 0))), Implies(cfg.len != 0, E.eq_val(P.get(s), cfg)))),
            ('the rest of the configuration stays', And(*[E.eq_val(B.get(n), B0.get(n)) for n in ('m_programCreator', 'm_layouts', 'm_pushConstants')]))]


contract('crg::PipelineHolder::resetPipeline', ['P09'], trace_ok=True, requires=reset_pre, havoc=reset_hv, ensures=reset_post,
         call_ensures=lambda c: [x for x in reset_post_state(c)], emits=lambda c: S.ghost_ev(c, 'resetPipeline', this=ident(c.this), index=c.av(1)))


def reset_post_state(c):
    L, L0 = c.f('m_pipelines').get(), c.old(c.f('m_pipelines'))
    P, P0 = c.f('m_baseConfig').get().get('m_programs'), c.old(c.f('m_baseConfig')).get('m_programs')
    return [('as many pipelines and programs as before, none for the index', And(L.len == L0.len, P.len == P0.len, L.get(slot(L0.len, c.av(1))) == 0))]
