"""PDF objects as seen in an abstract state: which object a dictionary, a reference or a held list belongs to."""
from .common import *


def obj_of_id(eng, st, t):
    """the object whose reference is t"""
    for k, v in st.heap.items():
        if k[0] == 'a' and k[2] == 'id' and v == t:
            return k[1]
    if t[0] == 'attr' and t[2] == 'id':
        return t[1]
    return None


def value_of(eng, st, o):
    v = st.heap.get(('a', o, 'value'))
    return v


def obj_of_dict(eng, st, d):
    """the object that holds dictionary d"""
    for k, v in st.heap.items():
        if k[0] == 'a' and k[2] == 'value' and v == d:
            return k[1]
    if d[0] == 'attr' and d[2] == 'value':
        return d[1]
    return d


def holder(eng, st, lst):
    """(object, key) such that object[key] is the list"""
    for k, v in st.heap.items():
        if k[0] == 'D':
            for l in v:
                if l[0] == 'kv' and l[2] == lst:
                    return obj_of_dict(eng, st, ('dict', k[1])), l[1]
        elif k[0] == 'i' and v == lst:
            return obj_of_dict(eng, st, k[1]), k[2]
    if lst[0] in ('idx', 'get', 'setdef'):
        return obj_of_dict(eng, st, lst[1]), lst[2]
    return None, None


def base_obj(eng, st, b):
    """object written to by a setitem event on b"""
    if b[0] == 'dict':
        return obj_of_dict(eng, st, b)
    if b[0] == 'attr' and b[2] == 'value':
        return b[1]
    return b


def entry(eng, st, o, key, default=('sym', '$none')):
    """value of o[key] for a PDFObject or plain dictionary"""
    v = value_of(eng, st, o)
    if v is None:
        v = ('attr', o, 'value', 0)
    if v[0] == 'dict':
        r = eng.dict_get(v, C(key), default, st)
        return r
    for b in (v, o):
        if ('i', b, C(key)) in st.heap:
            return st.heap[('i', b, C(key))]
    return default


def items(eng, st, lst):
    return st.heap.get(('L', lst[1])) if lst[0] == 'list' else None


def walk_parts(trace, path=()):
    """(loop, state, signal, own events, path) for every partition of every loop, with the enclosing loops"""
    for ev in trace:
        if ev.kind == 'loop':
            L = ev.a[0]
            for s, sig in L.parts:
                own = s.trace[s.base:]
                yield L, s, sig, own, path
                for x in walk_parts(own, path + ((L, s),)):
                    yield x


def plain_events(own):
    return [e for e in own if e.kind != 'loop']


def mentions(fi, consts):
    import ast
    return any(isinstance(n, ast.Constant) and n.value in consts for n in ast.walk(fi.node))


def closure_mentions(prog, consts):
    """functions that mention one of the constants or (transitively) call one that does"""
    from ..flow import callees
    hit = {f for f in prog.all_functions() if mentions(f, consts)}
    return hit
