"""Images, views and samplers of a device: made once, owned by who made them, released once (P12); memory types (P10)."""
from .common import *
from .layout import *
from .handlers import *
from .barriers import vk, R, ghost, view_pre, CR
from . import submit as S
from .submit import names, find, ptrval, ptr_get, obj, ident, ghost_ev, set_fresh
RH = 'crg::ResourceHandler::'
NO = z3.BoolVal(False)


def b(x):
    return z3.BoolVal(bool(x))


def dev(c, *skip):
    return [e for e in c.events() if e.name.startswith('vk') and e.name not in skip and 'DebugUtils' not in e.name and 'DebugMarker' not in e.name]


def others(M0, M1, key):
    """every other entry is as before"""
    E = M0.E
    k = z3.Const('k!oth', key.sort())
    return ForAll([k], Implies(k != key, And(M1.has(k) == M0.has(k), Implies(M0.has(k), E.eq_val(M1.at(k), M0.at(k))))))


def unchanged(M0, M1):
    E = M0.E
    k = z3.Const('k!un', M0.dom.sort().domain())
    return ForAll([k], And(M1.has(k) == M0.has(k), Implies(M0.has(k), E.eq_val(M1.at(k), M0.at(k)))))


def fn(c, ctx, name):
    return c.E.truth(ctx.field(c.E, name).get())


# ------------------------------------------------------------------------- memory types
def suits(E, ctx, bits, req, k):
    t = ctx.field(E, 'memoryProperties').get().get('memoryTypes').get(z64(k)).get('propertyFlags')
    return And(ULT(k, ctx.field(E, 'memoryProperties').get().get('memoryTypeCount')), (z3.LShR(bits, k) & 1) == 1, t & req == req)


def few_types(E, ctx):
    return ULE(ctx.field(E, 'memoryProperties').get().get('memoryTypeCount'), K32_(E))


def K32_(E):
    return b32(32)


def lowest(E, ctx, bits, req, r):
    k = z3.BitVec('k!mt', 32)
    return And(suits(E, ctx, bits, req, r), ForAll([k], Implies(ULT(k, r), Not(suits(E, ctx, bits, req, k)))))


def none_suits(E, ctx, bits, req):
    k = z3.BitVec('k!mn', 32)
    return ForAll([k], Not(suits(E, ctx, bits, req, k)))


def mem_inv(c):
    E = c.E
    i = c.lv()
    k = z3.BitVec('k!mi', 32)
    bits, req = c.entry_arg(0), c.entry_arg(1)
    return [('bound', ULE(i, c.f('memoryProperties').get().get('memoryTypeCount'))), ('the bit of the type comes first', c.a(0).get() == z3.LShR(bits, i)),
            ('none before suits', ForAll([k], Implies(ULT(k, i), Not(suits(E, c.this, bits, req, k)))))]


contract('crg::GraphContext::deduceMemoryType', ['P12'], requires=lambda c: [('the device has at most 32 memory types', few_types(c.E, c.this))],
         throws_when=lambda c: none_suits(c.E, c.this, c.av(0), c.av(1)),
         ensures=lambda c: [('it is the first type that is allowed and has all the required properties', lowest(c.E, c.this, c.av(0), c.av(1), c.res()))],
         loops={0: LoopSpec(mem_inv)})


# ------------------------------------------------------------------------- images
def iid_of(v):
    return v.get('id')


def img_maps(c):
    return c.old(c.f('m_images')), c.f('m_images').get()


def ri_hv(c):
    set_fresh(c, c.f('m_images'))


IMG = ('vkCreateImage', 'vkAllocateMemory', 'vkBindImageMemory', 'vkFreeMemory', 'vkDestroyImage')


def ri_state(c, ctx, key):
    E = c.E
    M0, M1 = img_maps(c)
    able = fn(c, ctx, 'vkCreateImage')
    r = c.res()
    new = And(able, Not(M0.has(key)))
    return [('what is there is returned, and not new', Implies(And(able, M0.has(key)), And(r.first == M0.at(key).first, Not(r.second), unchanged(M0, M1)))),
            ('a new one is there and returned', Implies(new, And(M1.has(key), M1.at(key).first == r.first, others(M0, M1, key), r.second == (ctx.field(E, 'device').get() != 0)))),
            ('without device functions there is none', Implies(Not(able), And(r.first == 0, Not(r.second), unchanged(M0, M1))))]


def ri_post(c):
    E = c.E
    ctx, img = c.a(0), c.av(1)
    key = iid_of(img)
    M0, M1 = img_maps(c)
    able = fn(c, ctx, 'vkCreateImage')
    new = And(able, Not(M0.has(key)))
    has_dev = ctx.field(E, 'device').get() != 0
    ev = dev(c)
    out = ri_state(c, ctx, key) + [('only memory and image are made', b(set(names(ev)) <= set(IMG[:3]) | {'vkGetImageMemoryRequirements'})), ('nothing is made unless it is new', Implies(Not(new), b(not ev)))]
    mk, al, bi, rq = ([e for e in ev if e.name == n] for n in IMG[:3] + ('vkGetImageMemoryRequirements',))
    out += [('one image is made', Implies(new, b(len(mk) == 1))), ('memory is made and bound, with a device', Implies(new, b(len(al) == 1 and len(bi) == 1) == has_dev))]
    if len(mk) != 1:
        return out
    h = mk[0].args['pImage']
    out += [('on the device, as it is described', And(mk[0].args['device'] == ctx.field(E, 'device').get(), E.eq_val(ptrval(mk[0].args['pCreateInfo']), img_info(E, img)))), ('it is the one remembered', M1.at(key).first == h)]
    if len(al) == len(bi) == len(rq) == 1:
        i = ptrval(al[0].args['pAllocateInfo'])
        q = rq[0].args['pMemoryRequirements']
        m = al[0].args['pMemory']
        out += [('what it requires is asked for', And(rq[0].args['image'] == h)),
                ('that much memory, of the first type in the device the image can use', And(i.get('allocationSize') == q.get('size'), lowest(E, ctx, q.get('memoryTypeBits'), K32(E, 'VK_MEMORY_PROPERTY_DEVICE_LOCAL_BIT'), i.get('memoryTypeIndex')))),
                ('bound to it from its start', And(bi[0].args['image'] == h, bi[0].args['memory'] == m, bi[0].args['memoryOffset'] == 0)),
                ('and remembered', M1.at(key).second == m)]
    return out


def ri_throw(c):
    """what a failed creation made is released, and it is not remembered"""
    E = c.E
    ctx = c.a(0)
    M0, M1 = img_maps(c)
    ev = dev(c)
    out = [('nothing is remembered', unchanged(M0, M1))]
    for mk, arg, rl, key in (('vkCreateImage', 'pImage', 'vkDestroyImage', 'image'), ('vkAllocateMemory', 'pMemory', 'vkFreeMemory', 'memory')):
        made_ = [e for e in ev if e.name == mk]
        gone_ = [e for e in ev if e.name == rl]
        ok = len(made_) <= 1 and len(gone_) <= 1
        out.append(('at most one of each (%s)' % mk, b(ok)))
        if ok and made_:
            done = And(*[gone_[0].args[key] == made_[0].args[arg]]) if gone_ else NO
            out.append(('what was made is released (%s)' % mk, Implies(And(made_[0].ret == 0, made_[0].args[arg] != 0, fn(c, ctx, rl)), done)))
            if gone_:
                out.append(('what was not made is not released (%s)' % mk, made_[0].ret == 0))
        elif gone_:
            out.append(('nothing else is released (%s)' % rl, NO))
    return out


def dev_setup(c):
    """documented assumptions on the device: at most 32 memory types; a successful creation gives an object"""
    c.E.assume(few_types(c.E, c.a(0)))


contract(RH + 'createImage', ['P12'], np=2, trace_ok=True, setup=dev_setup, requires=lambda c: [('the image exists', img_ok(c.E, c.av(1)))], may_throw=lambda c: TRUE, havoc=ri_hv, ensures=ri_post, call_ensures=lambda c: ri_state(c, c.a(0), iid_of(c.av(1))),
         post_throw=ri_throw, emits=lambda c: ghost(c, 'rhImage', c.res(), handler=ident(c.this), context=ident(c.a(0)), image=c.av(1)))


def released(c, ctx, ev, name, key, h):
    """released exactly when there is one, and a way to"""
    e = [x for x in ev if x.name == name]
    want = And(fn(c, ctx, name), h != 0)
    out = [('at most one is released (%s)' % name, b(len(e) <= 1)), ('there was one to release' if e else 'there was none to release', want if e else Not(want))]
    if e:
        out.append(('that one is released, on the device (%s)' % name, And(e[0].args[key] == h, e[0].args['device'] == ctx.field(c.E, 'device').get())))
    return out


def di_post(c):
    ctx, key = c.a(0), iid_of(c.av(1))
    M0, M1 = img_maps(c)
    ev = dev(c)
    out = di_state(c, M0, M1, key) + [('only releases', b(set(names(ev)) <= set(IMG[3:]))), ('nothing unless it is there', Implies(Not(M0.has(key)), b(not ev)))]
    return out + [(n, Implies(M0.has(key), g)) for n, g in released(c, ctx, ev, 'vkFreeMemory', 'memory', M0.at(key).second) + released(c, ctx, ev, 'vkDestroyImage', 'image', M0.at(key).first)]


def di_state(c, M0, M1, key):
    return [('it is forgotten', Not(M1.has(key))), ('the others stay', others(M0, M1, key))]


contract(RH + 'destroyImage', ['P12'], np=2, trace_ok=True, havoc=ri_hv, ensures=di_post, call_ensures=lambda c: di_state(c, *img_maps(c), iid_of(c.av(1))),
         emits=lambda c: ghost(c, 'rhDestroyImage', handler=ident(c.this), context=ident(c.a(0)), image=c.av(1)))


# ------------------------------------------------------------------------- views
def view_maps(c):
    return c.old(c.f('m_imageViews')), c.f('m_imageViews').get()


def rv_hv(c):
    set_fresh(c, c.f('m_imageViews'))
    set_fresh(c, c.f('m_images'))


def rv_state(c, ctx, view):
    E = c.E
    key = iid_of(view)
    M0, M1 = view_maps(c)
    I0, I1 = img_maps(c)
    ik = iid_of(view_data(E, view).field(E, 'image').get())
    able = fn(c, ctx, 'vkCreateImageView')
    r = c.res()
    return [('what is there is returned, and not new', Implies(And(able, M0.has(key)), And(r.first == M0.at(key), Not(r.second), unchanged(M0, M1), unchanged(I0, I1)))),
            ('a new one is there, returned, and new', Implies(And(able, Not(M0.has(key))), And(M1.has(key), M1.at(key) == r.first, r.second, others(M0, M1, key)))),
            ('no image changes but its own', others(I0, I1, ik)), ('an image that is there stays', Implies(I0.has(ik), unchanged(I0, I1))),
            ('without device functions there is none', Implies(Not(able), And(r.first == 0, Not(r.second), unchanged(M0, M1), unchanged(I0, I1))))]


def rv_post(c):
    E = c.E
    ctx, view = c.a(0), c.av(1)
    key = iid_of(view)
    M0, M1 = view_maps(c)
    new = And(fn(c, ctx, 'vkCreateImageView'), Not(M0.has(key)))
    ev = dev(c)
    out = rv_state(c, ctx, view) + [('only a view is made', b(names(ev) in ([], ['vkCreateImageView']))), ('exactly when it is new', new if ev else Not(new))]
    if names(ev) != ['vkCreateImageView']:
        return out
    i = ptrval(ev[0].args['pCreateInfo'])
    im = [e for e in c.events() if e.name == 'rhImage']
    out += [('its image is asked for first', b(len(im) >= 1))]
    if im:
        out += [('the image of the view', And(E.eq_val(im[0].args['image'], view_data(E, view).field(E, 'image').get()), im[0].args['handler'] == ident(c.this), im[0].args['context'] == ident(ctx))),
                ('the view is of that image', i.get('image') == im[0].ret.first)]
    w = view_data(E, view).field(E, 'info').get()
    out += [('on the device', ev[0].args['device'] == ctx.field(E, 'device').get()), ('as it is described', E.eq_val(i.with_('image', w.get('image')), w)), ('it is the one remembered', M1.at(key) == ev[0].args['pView'])]
    return out


def view_there(c, n):
    v = c.av(n)
    return [('the view exists', v.get('data') != 0), ('its image exists', img_ok(c.E, view_data(c.E, v).field(c.E, 'image').get()))]


contract(RH + 'createImageView', ['P12'], np=2, trace_ok=True, setup=dev_setup, requires=lambda c: view_there(c, 1), may_throw=lambda c: TRUE, havoc=rv_hv, ensures=rv_post, call_ensures=lambda c: rv_state(c, c.a(0), c.av(1)),
         post_throw=lambda c: [('no view is remembered', unchanged(*view_maps(c)))], emits=lambda c: ghost(c, 'rhView', c.res(), handler=ident(c.this), context=ident(c.a(0)), view=c.av(1)))


def dv_post(c):
    ctx, key = c.a(0), iid_of(c.av(1))
    M0, M1 = view_maps(c)
    ev = dev(c)
    return di_state(c, M0, M1, key) + [('only releases', b(set(names(ev)) <= {'vkDestroyImageView'})), ('nothing unless it is there', Implies(Not(M0.has(key)), b(not ev)))] + [
        (n, Implies(M0.has(key), g)) for n, g in released(c, ctx, ev, 'vkDestroyImageView', 'imageView', M0.at(key))]


contract(RH + 'destroyImageView', ['P12'], np=2, trace_ok=True, havoc=lambda c: set_fresh(c, c.f('m_imageViews')), ensures=dv_post, call_ensures=lambda c: di_state(c, *view_maps(c), iid_of(c.av(1))),
         emits=lambda c: ghost(c, 'rhDestroyView', handler=ident(c.this), context=ident(c.a(0)), view=c.av(1)))


# ------------------------------------------------------------------------- samplers
SMP = ('magFilter', 'minFilter', 'mipmapMode', 'addressModeU', 'addressModeV', 'addressModeW', 'mipLodBias', 'minLod', 'maxLod')


def smp_maps(c):
    return c.old(c.f('m_samplers')), c.f('m_samplers').get()


def rs_hv(c):
    set_fresh(c, c.f('m_samplers'))
    S.heap_havoc(c, 'crg::GraphContext', 'm_allocated')


def rs_post(c):
    E = c.E
    ctx = c.a(0)
    M0, M1 = smp_maps(c)
    able = fn(c, ctx, 'vkCreateSampler')
    ev = dev(c)
    out = [('one sampler is made, if it can be', b(names(ev) == ['vkCreateSampler']) == able), ('nothing else', b(names(ev) in ([], ['vkCreateSampler'])))]
    if names(ev) != ['vkCreateSampler']:
        return out + [('none is returned', c.res() == 0), ('the others stay', unchanged(M0, M1))]
    i = ptrval(ev[0].args['pCreateInfo'])
    h = ev[0].args['pSampler']
    return out + [('on the device, as it is described', And(ev[0].args['device'] == ctx.field(E, 'device').get(), *[E.eq_val(i.get(f), c.av(2).get(f)) for f in SMP])),
                  ('without comparison nor anisotropy', And(i.get('compareEnable') == 0, i.get('anisotropyEnable') == 0, i.get('unnormalizedCoordinates') == 0)),
                  ('it is returned and remembered', And(c.res() == h, M1.has(h))), ('the others stay', others(M0, M1, h))]


contract(RH + 'createSampler', ['P12'], np=3, trace_ok=True, may_throw=lambda c: TRUE, havoc=rs_hv, ensures=rs_post, call_ensures=lambda c: [],
         post_throw=lambda c: [('only when the creation failed', dev(c)[0].ret != 0 if dev(c) else NO), ('nothing is remembered', unchanged(*smp_maps(c)))],
         emits=lambda c: ghost(c, 'rhSampler', c.res(), handler=ident(c.this), context=ident(c.a(0)), desc=c.av(2)))


def dsmp_post(c):
    ctx, key = c.a(0), c.av(1)
    M0, M1 = smp_maps(c)
    ev = dev(c)
    return di_state(c, M0, M1, key) + [('only releases', b(set(names(ev)) <= {'vkDestroySampler'})), ('nothing unless it is there', Implies(Not(M0.has(key)), b(not ev)))] + [
        (n, Implies(M0.has(key), g)) for n, g in released(c, ctx, ev, 'vkDestroySampler', 'sampler', key)]


contract(RH + 'destroySampler', ['P12'], np=2, trace_ok=True, havoc=rs_hv, ensures=dsmp_post, call_ensures=lambda c: [], emits=lambda c: ghost(c, 'rhDestroySampler', handler=ident(c.this), context=ident(c.a(0)), sampler=c.av(1)))


# ------------------------------------------------------------------------- what a cache owns
def handler_of(c):
    return HeapObj(c.E, 'crg::ResourceHandler', c.f('m_handler').get())


def ctx_of(c):
    return HeapObj(c.E, 'crg::GraphContext', c.f('m_context').get())


def hmaps(c, n):
    r = handler_of(c).field(c.E, n)
    return c.old(r), r.get()


def cmaps(c, n):
    return c.old(c.f(n)), c.f(n).get()


def owns_new(c, n, ik=None):
    """what this made in the handler belongs to the cache, what it owned it still owns"""
    E = c.E
    (H0, H1), (C0, C1) = hmaps(c, n), cmaps(c, n)
    k = z3.BitVec('k!own', 32)
    return [('what is made here belongs to the cache', Implies(ctx_of(c).field(E, 'device').get() != 0, ForAll([k], Implies(And(H1.has(k), Not(H0.has(k))), C1.has(k))))),
            ('what it owned it still owns', ForAll([k], Implies(C0.has(k), C1.has(k)))),
            ('it owns nothing another one made', ForAll([k], Implies(And(C1.has(k), Not(C0.has(k))), And(H1.has(k), Not(H0.has(k))))))]


def ci_post(c):
    E = c.E
    ev = [e for e in c.events() if e.name == 'rhImage']
    H0, H1 = hmaps(c, 'm_images')
    key = iid_of(c.av(0))
    out = [('the image is asked for', b(len(ev) >= 1)), ('nothing else of the device is used', b(all(e.name == 'rhImage' for e in c.events())))]
    if ev:
        a = ev[-1].args
        out += [('that image, in the context of the cache', And(E.eq_val(a['image'], c.av(0)), a['context'] == ident(ctx_of(c)), a['handler'] == ident(handler_of(c)))), ('it is returned', c.res() == ev[-1].ret.first)]
    return out + owns_new(c, 'm_images') + [('views stay', And(unchanged(*hmaps(c, 'm_imageViews')), unchanged(*cmaps(c, 'm_imageViews'))))]


def ci_call(c):
    return owns_new(c, 'm_images') + [('views stay', And(unchanged(*hmaps(c, 'm_imageViews')), unchanged(*cmaps(c, 'm_imageViews')))),
                                      ('it is there', Implies(fn(c, ctx_of(c), 'vkCreateImage'), hmaps(c, 'm_images')[1].has(iid_of(c.av(0)))))]


def cv_post(c):
    E = c.E
    ev = [e for e in c.events() if e.name == 'rhView']
    out = [('the view is asked for', b(len(ev) == 1)), ('nothing else of the device is used', b(all(e.name in ('rhView', 'rhImage', 'createImage') for e in c.events())))]
    if ev:
        a = ev[-1].args
        out += [('that view, in the context of the cache', And(E.eq_val(a['view'], c.av(0)), a['context'] == ident(ctx_of(c)), a['handler'] == ident(handler_of(c)))), ('it is returned', c.res() == ev[-1].ret.first)]
    images = [(n + ' (image)', Implies(fn(c, ctx_of(c), 'vkCreateImage'), g)) for n, g in owns_new(c, 'm_images')]
    return out + owns_new(c, 'm_imageViews') + images


# ------------------------------------------------------------------------- given back
def own_destroy(map_, event, arg):
    def post(c):
        E = c.E
        C0, C1 = cmaps(c, map_)
        k = iid_of(c.av(0))
        ev = c.events()
        out = [('says whether it was its own', E.truth(c.res()) == C0.has(k)), ('it owns it no more', Not(C1.has(k))), ('what else it owns stays', others(C0, C1, k)),
               ('it is given back once, if it was its own', b(names(ev) == [event]) == C0.has(k)), ('nothing else is done', b(names(ev) in ([], [event])))]
        if names(ev) == [event]:
            a = ev[0].args
            out.append(('that one, in its context', And(a[arg].get('id') == k, a['handler'] == ident(handler_of(c)), a['context'] == ident(ctx_of(c)))))
        return out
    return post


def own_destroy_call(map_):
    def post(c):
        C0, C1 = cmaps(c, map_)
        k = iid_of(c.av(0))
        return [('says whether it was its own', c.E.truth(c.res()) == C0.has(k)), ('it owns it no more', Not(C1.has(k))), ('what else it owns stays', others(C0, C1, k))]
    return post


def od_hv(map_):
    def f(c):
        set_fresh(c, c.f(map_))
        S.heap_havoc(c, 'crg::ResourceHandler', map_)
    return f


for _f, _m, _e, _a in (('destroyImage', 'm_images', 'rhDestroyImage', 'image'), ('destroyImageView', 'm_imageViews', 'rhDestroyView', 'view')):
    contract(CR + _f, ['P12'], np=1, trace_ok=True, havoc=od_hv(_m), ensures=own_destroy(_m, _e, _a), call_ensures=own_destroy_call(_m),
             emits=lambda c, _f=_f: ghost(c, 'cache' + _f, cache=c.this.addr, id=c.av(0).get('id')))


# ------------------------------------------------------------------------- samplers of a cache
MIX = 'mix!'


def mix(c):
    """the mixing function, whatever it computes"""
    x = c.E.to_term(c.av(1), c.a(1).ty.noref())
    return z3.Function(MIX + str(x.sort()), c.av(0).sort(), x.sort(), z3.BitVecSort(64))(c.av(0), x)


for _t in ('VkFilter', 'VkSamplerMipmapMode', 'VkSamplerAddressMode', 'float'):
    contract('crg::reshdl::hashCombine', ['P12'], np=2, sub='const %s &' % _t, key='crg::reshdl::hashCombine(%s)' % _t, assumed=True, result=mix)


def mixes(t, out=None):
    out = {} if out is None else out
    if z3.is_app(t):
        if t.decl().name().startswith(MIX):
            out[t.get_id()] = t
        for a in t.children():
            mixes(a, out)
    return out


def told_apart(E, terms, res):
    """two descriptions that get the same key are the same: the key of a second, arbitrary description is compared (self-composition);
    the mixing function is taken to give these two different results for different arguments"""
    first = [z3.Const('one!%d' % i, t.sort()) for i, t in enumerate(terms)]
    other = [z3.Const('other!%d' % i, t.sort()) for i, t in enumerate(terms)]
    r1 = z3.substitute(res, *zip(terms, first))
    r2 = z3.substitute(res, *zip(terms, other))
    left = [v for v in z3.z3util.get_vars(r1) if not any(v.eq(f) for f in first)]
    L = list(mixes(r1).values()) + list(mixes(r2).values())
    no_collision = [Implies(a == b_, And(*[x == y for x, y in zip(a.children(), b_.children())])) for a in mixes(r1).values() for b_ in mixes(r2).values() if a.decl().eq(b_.decl())]
    return [('the key is made of the description alone', b(not left)), ('two descriptions with the same key are the same', Implies(And(r1 == r2, *no_collision), And(*[x == y for x, y in zip(first, other)])))]


def desc_terms(E, d):
    return [E.to_term(d.get(f), E.T.field_ty('crg::SamplerDesc', f)) for f in SMP]


def smp_key(E, d):
    t = desc_terms(E, d)
    return z3.Function('sampler!key', *[x.sort() for x in t], z3.BitVecSort(64))(*t)


contract('crg::reshdl::makeHash', ['P12'], np=1, sub='SamplerDesc', key='crg::reshdl::makeHash(sampler)', result=lambda c: smp_key(c.E, c.av(0)), ensures=lambda c: told_apart(c.E, desc_terms(c.E, c.av(0)), c.res()), call_ensures=lambda c: [])


def tex_terms(E, t, x):
    return [t] + [E.to_term(x.get(f), E.T.field_ty('crg::Texcoord', f)) for f in ('invertU', 'invertV')]


contract('crg::reshdl::makeHash', ['P12'], np=2, sub='Texcoord', key='crg::reshdl::makeHash(quad)', modular=False, ensures=lambda c: told_apart(c.E, tex_terms(c.E, c.av(0), c.av(1)), c.res()))


def cs_state(c):
    E = c.E
    C0, C1 = cmaps(c, 'm_samplers')
    k = smp_key(E, c.av(0))
    return [('what is there for the description is returned', Implies(C0.has(k), And(c.res() == C0.at(k), unchanged(C0, C1)))), ('what is returned is there for the description', And(C1.has(k), C1.at(k) == c.res())), ('the others stay', others(C0, C1, k))]


def cs_post(c):
    E = c.E
    C0, C1 = cmaps(c, 'm_samplers')
    k = smp_key(E, c.av(0))
    ev = c.events()
    out = cs_state(c) + [('one is made exactly when there was none', b(names(ev) == ['rhSampler']) == Not(C0.has(k))), ('nothing else is done', b(names(ev) in ([], ['rhSampler'])))]
    if names(ev) == ['rhSampler']:
        a = ev[0].args
        out += [('as described, in its context', And(E.eq_val(a['desc'], c.av(0)), a['handler'] == ident(handler_of(c)), a['context'] == ident(ctx_of(c)))), ('it is the one made', c.res() == ev[0].ret)]
    return out


def cs_hv(c):
    set_fresh(c, c.f('m_samplers'))
    S.heap_havoc(c, 'crg::ResourceHandler', 'm_samplers')
    S.heap_havoc(c, 'crg::GraphContext', 'm_allocated')


contract(CR + 'createSampler', ['P12', 'P09'], np=1, trace_ok=True, may_throw=lambda c: TRUE, havoc=cs_hv, ensures=cs_post, call_ensures=cs_state, post_throw=lambda c: [('nothing is remembered', unchanged(*cmaps(c, 'm_samplers')))],
         emits=lambda c: ghost(c, 'createSampler', c.res(), cache=c.this.addr, desc=c.av(0)))


# ------------------------------------------------------------------------- vertex buffers
def vbs(c):
    return c.f('m_vertexBuffers')


def vb(E, p):
    return HeapObj(E, 'crg::VertexBuffer', p)


def vb_wf(c, V):
    k = z3.BitVec('k!vb', 64)
    E = c.E
    return [('the buffers exist and have a handle', ForAll([k], Implies(V.has(k), And(k != 0, ULT(z64(b32(0)), vb(E, k).field(E, 'buffer').get().get('m_buffers').len)))))]


def dvb_post(c):
    E = c.E
    V0, V1 = c.old(vbs(c)), vbs(c).get()
    p = c.av(1)
    ev = dev(c)
    mem, buf = vb(E, p).field(E, 'memory').get(), vb(E, p).field(E, 'buffer').get().get('m_buffers').get(z64(b32(0)))
    out = [('it is forgotten', Not(V1.has(p))), ('the others stay', same_keys(V0, V1, p)), ('only releases', b(set(names(ev)) <= {'vkFreeMemory', 'vkDestroyBuffer'})), ('nothing unless it is there', Implies(Not(V0.has(p)), b(not ev)))]
    return out + [(n, Implies(V0.has(p), g)) for n, g in released(c, c.a(0), ev, 'vkFreeMemory', 'memory', mem) + released(c, c.a(0), ev, 'vkDestroyBuffer', 'buffer', buf)]


def same_keys(M0, M1, key):
    k = z3.Const('k!sk', key.sort())
    return ForAll([k], Implies(k != key, M1.has(k) == M0.has(k)))


contract(RH + 'destroyVertexBuffer', ['P12'], np=2, trace_ok=True, requires=lambda c: vb_wf(c, vbs(c).get()), havoc=lambda c: set_fresh(c, vbs(c)) or S.heap_havoc(c, 'crg::GraphContext', 'm_allocated'), ensures=dvb_post,
         call_ensures=lambda c: vb_wf(c, vbs(c).get()), emits=lambda c: ghost(c, 'rhDestroyBuffer', handler=ident(c.this), context=ident(c.a(0)), buffer=c.av(1)))


# ------------------------------------------------------------------------- the end of a cache
GIVE = {'m_imageViews': ('rhDestroyView', 'view'), 'm_images': ('rhDestroyImage', 'image'), 'm_samplers': ('rhDestroySampler', 'sampler'), 'm_vertexBuffers': ('rhDestroyBuffer', 'buffer')}


def over(c):
    return getattr(c.ghost.ref, 'name', None)


def end_iter(c, ev):
    E = c.E
    m = over(c)
    if m not in GIVE:
        return [('a round gives back something owned', NO)]
    event, arg = GIVE[m]
    out = [('one is given back', b(names(ev) == [event]))]
    if names(ev) != [event]:
        return out
    a = ev[0].args
    M = c.b(c.f(m))
    k = c.ghost.cur()
    want = a[arg].get('id') == k if m in ('m_imageViews', 'm_images') else a[arg] == M.at(k)
    return out + [('it is the one owned, in its context', And(want, a['handler'] == ident(handler_of(c)), a['context'] == ident(ctx_of(c))))]


def end_inv(c):
    return vb_wf(c, handler_of(c).field(c.E, 'm_vertexBuffers').get())


END = LoopSpec(end_inv, iter=end_iter, label=lambda c: 'loop:' + str(over(c)))


def end_hv(c):
    for n in GIVE:
        S.heap_havoc(c, 'crg::ResourceHandler', n)
    S.heap_havoc(c, 'crg::GraphContext', 'm_allocated')


contract(CR + '~ContextResourcesCache', ['P12'], trace_ok=True, requires=end_inv, havoc=end_hv, ensures=lambda c: [('everything owned is given back, once', b(sorted(e.label if hasattr(e, 'label') else e.name for e in c.events()) == sorted('loop:' + m for m in GIVE)))],
         call_ensures=lambda c: [], loops={0: END, 1: END, 2: END, 3: END})
