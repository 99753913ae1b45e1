"""How much state the library keeps: everything reachable from given objects through its own instances and containers."""
import collections, types

CONTAINERS = (dict, list, tuple, set, frozenset, collections.deque)
SKIP = (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType, types.FrameType, types.TracebackType)

def mine(o):
    return type(o).__module__.split(".")[0] == "snmp"

def children(o):
    if isinstance(o, dict):
        yield from o.keys()
        yield from o.values()
    elif isinstance(o, CONTAINERS):
        yield from o
    else:
        if isinstance(o, types.MethodType):
            yield o.__self__
            return
        if not mine(o):
            return
        d = getattr(o, "__dict__", None)
        if d:
            yield from list(d.values())
        for c in type(o).__mro__:
            for s in getattr(c, "__slots__", ()):
                if isinstance(s, str) and hasattr(o, s):
                    yield getattr(o, s)

def size(*roots):
    """Number of things reachable, counting every entry of every container; and by type."""
    seen, todo, n, by = {}, list(roots), 0, collections.Counter()
    while todo:
        o = todo.pop()
        n += 1
        if id(o) in seen or isinstance(o, SKIP):
            continue
        if not (isinstance(o, CONTAINERS) or isinstance(o, types.MethodType) or mine(o)):
            continue
        try:
            seen[id(o)] = o
        except ReferenceError:
            continue
        by[type(o).__name__] += len(o) + 1 if isinstance(o, CONTAINERS) else 1
        todo += list(children(o))
    return n, by
