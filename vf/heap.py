"""Size of the state an object holds on to."""
import collections
import types
import weakref

ATOMS = (int, float, str, bytes, bool, type(None), complex)
SKIP = (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType,
        types.CodeType, types.FrameType)


def population(roots):
    """Number of objects, and of container elements, reachable from roots
    through containers, instance attributes and closures. Modules, classes
    and globals are left out."""
    seen = set()
    stack = list(roots)
    keep = []
    total = 0
    while stack:
        o = stack.pop()
        if isinstance(o, ATOMS) or id(o) in seen:
            continue
        seen.add(id(o))
        keep.append(o)
        if type(o).__module__.startswith("vf."):
            continue
        if isinstance(o, types.FunctionType):
            for c in o.__closure__ or ():
                try:
                    stack.append(c.cell_contents)
                except ValueError:
                    pass
            total += 1
            continue
        if isinstance(o, types.MethodType):
            stack.append(o.__self__)
            continue
        if isinstance(o, SKIP) or isinstance(o, weakref.ref):
            continue
        total += 1
        if isinstance(o, dict):
            total += len(o)
            stack.extend(o.keys())
            stack.extend(o.values())
        elif isinstance(o, (list, tuple, set, frozenset, collections.deque)):
            total += len(o)
            stack.extend(o)
        d = getattr(o, "__dict__", None)
        if isinstance(d, dict):
            stack.append(d)
        for c in type(o).__mro__:
            for n in getattr(c, "__slots__", ()):
                try:
                    stack.append(getattr(o, n))
                except AttributeError:
                    pass
    return total
