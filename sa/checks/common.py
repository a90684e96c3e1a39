"""Helpers shared by the checks."""
from ..engine import Engine, Ev, Loop, State, TooComplex, all_events
from ..program import AnchorMissing
from ..terms import *


def is_known(t):
    """built only from constants, parameters, attributes and arithmetic over them: differences between
    two such terms are real differences, not artefacts of an opaque value"""
    for x in subterms(t):
        if x[0] in ('unk',):
            return False
    return True


def differ(a, b):
    """three-valued equality of two numeric terms: True equal, False provably different by a
    non-zero constant, None otherwise"""
    d = poly_const(p_sub(a, b))
    if d is None:
        return None
    return d == 0


def own_trace(L, s):
    return s.trace[s.base:]


def flat(trace):
    """events of a trace with loops kept"""
    return list(trace)


def writes_to(ev, buf):
    """template(s) written by an event to the buffer, or None"""
    if ev.kind == 'mut' and ev.a[0] == buf and ev.a[1] == 'write' and len(ev.a[2]) == 1:
        return ev.a[2][0]
    return None


def lit_text(parts):
    return ''.join(p[1] if p[0] == 'lit' else '\0' for p in parts)


def cut(parts, i, j):
    """parts between absolute positions: helper for literal slicing"""
    return parts[i:j]


def enter_functions(rep, eng):
    rep.functions |= set(eng.analysed)
