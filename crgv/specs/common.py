import z3
from ..cxxtypes import *
from ..values import *
from ..contract import Contract, LoopSpec
from ..engine import *

And, Or, Not, Implies, ForAll, Exists, If, ULT, ULE, UGE, UGT = z3.And, z3.Or, z3.Not, z3.Implies, z3.ForAll, z3.Exists, z3.If, z3.ULT, z3.ULE, z3.UGE, z3.UGT
B32 = z3.BitVecSort(32)
B64 = z3.BitVecSort(64)
TRUE = z3.BoolVal(True)


def b32(v):
    return z3.BitVecVal(v, 32)


def b64(v):
    return z3.BitVecVal(v, 64)


REGISTRY = []


def contract(qn, props=(), **kw):
    c = Contract(qn, **kw)
    c.props = tuple(props)
    REGISTRY.append(c)
    return c


def split_contract(qn, props, cases, setup=None, modular=True, key=None, **kw):
    """one contract, verified separately for every combination of the conditions `cases` (ctx -> formula), in parallel"""
    import itertools
    for n, combo in enumerate(itertools.product((True, False), repeat=len(cases))):
        def s(c, combo=combo):
            if setup:
                setup(c)
            for f, want in zip(cases, combo):
                c.E.assume(f(c) if want else Not(f(c)))
        contract(qn, props, setup=s, modular=modular and n == 0, key=(key or qn) + ('' if n == 0 else ' [case %d]' % n), **kw)


def vkc(E, name):
    """value of a Vulkan constant from the header the library is compiled against"""
    return E.vk.consts[name]


def K32(E, name):
    return z3.BitVecVal(vkc(E, name), 32)


def z64(x):
    return z3.ZeroExt(64 - x.size(), x) if x.size() < 64 else x
