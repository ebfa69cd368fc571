"""Small client programs run by the abstract interpreter over the code under analysis (nothing is executed)."""
import ast
import textwrap
from sa.loader import FuncInfo
from sa.interp import State


def program(mod, src):
    """FuncInfo of a client function written here, whose free names are those of a module of the library"""
    tree = ast.parse(textwrap.dedent(src))
    return FuncInfo(mod, None, tree.body[0])


def run(I, fi, st, **args):
    """outcomes [(state, signal)] of the client program"""
    return I.entry(fi, [], st, kwargs=args)


def awaited(I, st, v, fi):
    """outcomes [(state, signal)] of awaiting a coroutine"""
    from sa.interp import Frame
    I.raised.append([])
    out = [(s, ('return', x)) for s, x in I.await_(st, v, Frame(0, fi.mod, fi.cls, fi), fi.node)]
    return out + I.raised.pop()
