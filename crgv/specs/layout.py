"""Layout-state tracking (P01)"""
from .common import *


# ---- abstract view: (layer, level) -> LayoutState, partial
def tracked(R, l, m):
    return And(R.has(l), R.at(l).has(m))


def state(R, l, m):
    return R.at(l).at(m)


def st_eq(E, a, b):
    return E.eq_val(a, b)


def in_range(r, l, m):
    bl, nl, bm, nm = (r.get(x) for x in ('baseArrayLayer', 'layerCount', 'baseMipLevel', 'levelCount'))
    return And(UGE(l, bl), ULT(z64(l), z64(bl) + z64(nl)), UGE(m, bm), ULT(z64(m), z64(bm) + z64(nm)))


def nowrap(r):
    bl, nl, bm, nm = (r.get(x) for x in ('baseArrayLayer', 'layerCount', 'baseMipLevel', 'levelCount'))
    lim = b64(1 << 32)
    return And(ULE(z64(bl) + z64(nl), lim), ULE(z64(bm) + z64(nm), lim))


def recorded(E, R0, R1, inr, new):
    """R1 is R0 with `new` recorded exactly where inr(l, m)"""
    l, m = z3.BitVecs('l!s m!s', 32)
    return ForAll([l, m], And(
        Implies(inr(l, m), And(tracked(R1, l, m), st_eq(E, state(R1, l, m), new))),
        Implies(Not(inr(l, m)), And(tracked(R1, l, m) == tracked(R0, l, m),
                                    Implies(tracked(R0, l, m), st_eq(E, state(R1, l, m), state(R0, l, m)))))))


def add_ensures(c):
    R0, R1, r, new = c.old(c.a(0)), c.a(0).get(), c.av(1), c.av(2)
    return [('the state is recorded for exactly the subresources of the range', recorded(c.E, R0, R1, lambda l, m: in_range(r, l, m), new)),
            ('the recorded state is returned', st_eq(c.E, c.res(), new))]


def add_havoc(c):
    c.a(0).set(c.E.fresh(c.a(0).ty.noref(), 'ranges'))


def add_outer(c):
    R0, R1, r, new = c.entry(c.a(0)), c.a(0).get(), c.av(1), c.av(2)
    i = c.lv()
    done = lambda l, m: And(in_range(r, l, m), ULT(l - r.get('baseArrayLayer'), i))
    return [('bound', ULE(i, r.get('layerCount'))), ('recorded so far', recorded(c.E, R0, R1, done, new))]


def add_inner(c):
    R0, R1, r, new = c.entry(c.a(0)), c.a(0).get(), c.av(1), c.av(2)
    i, j = c.lv(1), c.lv(0)
    bl, bm = r.get('baseArrayLayer'), r.get('baseMipLevel')
    done = lambda l, m: And(in_range(r, l, m), Or(ULT(l - bl, i), And(l - bl == i, ULT(m - bm, j))))
    return [('bound', ULE(j, r.get('levelCount'))), ('row exists', R1.has(bl + i)), ('recorded so far', recorded(c.E, R0, R1, done, new))]


contract('crg::addSubresourceRangeLayout', ['P01'], np=3,
         requires=lambda c: [('range does not wrap', nowrap(c.av(1)))],
         ensures=add_ensures, havoc=add_havoc, result=lambda c: c.a(2),
         loops={0: LoopSpec(add_outer), 1: LoopSpec(add_inner)})


# ---- reading back
LSTATE = Ty('struct', name='crg::LayoutState')


def undefined_state(E, res):
    return And(res.get('layout') == K32(E, 'VK_IMAGE_LAYOUT_UNDEFINED'), res.get('state').get('access') == 0,
               res.get('state').get('pipelineStage') == K32(E, 'VK_PIPELINE_STAGE_HOST_BIT'))


def rd(E, R, r):
    """the state read back from R over range r, as a function of both (the real function is deterministic)"""
    f = z3.Function('READ', E.T.sort(R.ty), B32, B32, B32, B32, E.T.sort(LSTATE))
    return E.from_term(f(R.to_term(), r.get('baseArrayLayer'), r.get('layerCount'), r.get('baseMipLevel'), r.get('levelCount')), LSTATE)


class Skolem:
    """universally quantified parameters of the postcondition of the read: an arbitrary subresource (l, m), an arbitrary
    layout k and an arbitrary state s"""

    def __init__(self, E, R, r):
        self.l, self.m, self.k = z3.BitVecs('l!sk m!sk k!sk', 32)
        self.s = E.from_term(z3.Const('s!sk', E.T.sort(LSTATE)), LSTATE)
        a, b = z3.BitVecs('l!g m!g', 32)
        T = lambda x, y: And(in_range(r, x, y), tracked(R, x, y))
        self.T = T
        self.none = z3.Bool('none!sk')           # nothing is tracked in the range
        self.uni = z3.Bool('uni!sk')             # everything tracked in the range has state s
        self.nok = z3.Bool('nok!sk')             # nothing tracked in the range has layout k
        self.defs = [Implies(self.none, ForAll([a, b], Not(T(a, b)))),
                     Implies(self.uni, ForAll([a, b], Implies(T(a, b), st_eq(E, state(R, a, b), self.s)))),
                     Implies(self.nok, ForAll([a, b], Implies(T(a, b), state(R, a, b).get('layout') != self.k)))]


def get_sk(c):
    return Skolem(c.E, c.entry(c.a(0)), c.entry(c.a(1)))


def get_verify(c):
    E, R, r, res = c.E, c.av(0), c.av(1), c.res()
    k = Skolem(E, R, r)
    t = And(k.T(k.l, k.m))
    acc = lambda s: s.get('state').get('access')
    sl = state(R, k.l, k.m)
    return [
        ('nothing tracked in the range reads as undefined', Implies(k.none, undefined_state(E, res))),
        ('a uniformly tracked range reads back its state', Implies(And(k.uni, t), st_eq(E, res, k.s))),
        ('the layout read is that of a tracked subresource of the range', Implies(And(k.nok, t), res.get('layout') != k.k)),
        ('the accesses of every subresource with that layout are covered',
         Implies(And(t, sl.get('layout') == res.get('layout')), acc(res) & acc(sl) == acc(sl))),
    ]


def get_inv(outer):
    def inv(c):
        E = c.E
        R, r = c.entry(c.a(0)), c.entry(c.a(1))
        k = get_sk(c)
        st = c.by_type(lambda t: t.k == 'map').get()
        bl, bm = r.get('baseArrayLayer'), r.get('baseMipLevel')
        i = c.lv(0 if outer else 1)
        seen = ULT(k.l - bl, i)
        if not outer:
            seen = Or(seen, And(k.l - bl == i, ULT(k.m - bm, c.lv(0))))
        x = z3.BitVec('x!g', 32)
        lay = state(R, k.l, k.m).get('layout')
        acc = lambda s: s.get('state').get('access')
        out = [('bound', ULE(i, r.get('layerCount')) if outer else And(ULT(i, r.get('layerCount')), ULE(c.lv(0), r.get('levelCount')))),
               ('empty if nothing is tracked', Implies(k.none, st.size == 0)),
               ('only the uniform state', Implies(k.uni, ForAll([x], Implies(st.has(x), And(x == k.s.get('layout'), st_eq(E, st.at(x), k.s)))))),
               ('no foreign layout', Implies(k.nok, Not(st.has(k.k)))),
               ('keyed by layout', ForAll([x], Implies(st.has(x), st.at(x).get('layout') == x))),
               ('nonempty iff seen', ForAll([x], Implies(st.has(x), st.size != 0))),
               ('every visited subresource counts', Implies(And(k.T(k.l, k.m), seen),
                                                            And(st.has(lay), acc(st.at(lay)) & acc(state(R, k.l, k.m)) == acc(state(R, k.l, k.m))))),
               ]
        if not outer:
            out.append(('row exists', R.has(bl + i)))
        return out
    return inv


contract('crg::getSubresourceRangeLayout', ['P01'], np=2, spec_fn=True,
         requires=lambda c: [('range does not wrap', nowrap(c.av(1)))],
         setup=lambda c: [c.E.assume(x) for x in Skolem(c.E, c.a(0).get(), c.a(1).get()).defs],
         ensures=get_verify, result=lambda c: rd(c.E, c.a(0).get(), c.a(1).get()), call_ensures=lambda c: [],
         loops={0: LoopSpec(get_inv(True)), 1: LoopSpec(get_inv(False))})
