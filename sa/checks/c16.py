"""C16: a saved layout position captures everything needed to resume from it."""
import ast
from .common import *
from ..carried import Carried, modified, reachable
from ..access import private_closure

TECHNIQUE = ('upward-exposed/modified dataflow over the attributes of each layout class (interprocedural, '
             'on the syntax tree), compared with abstract summaries of get_state and set_state; typestate '
             'of save, restore and run on every path that resumes an element')

SELF = ('sym', 'self')
LAYOUT = ('PDFText', 'PDFTable', 'PDFContent', 'PDFContentPart')


def run(prog, rep):
    rep.rule('carried', 'an attribute a run may read before it writes it and that layout changes is saved and restored (or set up once)')
    rep.rule('roundtrip', 'what is saved under a name is what is restored from it, whatever its value')
    rep.rule('resume', 'an interrupted element is put back to its saved position, marked unfinished, before it is run again')
    rep.rule('saved', 'the position handed on with an interrupted element is the one after its run')
    rep.rule('children', 'the position of nested boxes is restored from what was remembered for them, level by level')
    rep.rule('reset', 'laying out a section again starts from the beginning of the section')
    rep.rule('alias', 'nothing in a saved position is changed in place by laying out further')
    for c in LAYOUT:
        rep.section('carried', carried, prog, rep, c)
    rep.section('resume', resume, prog, rep)
    rep.section('children', children, prog, rep)
    rep.section('reset', reset, prog, rep)
    rep.section('alias', alias, prog, rep)


def method(prog, c, name):
    m = prog.find_method(prog.cls(c), name, 'methods')
    if m is None:
        raise AnchorMissing('%s.%s' % (c, name))
    return m


def origin(eng, t, st, depth=0):
    """what a value is a copy of"""
    if t is None or depth > 6:
        return t
    if t[0] == 'fn' and t[1] in ('copy', 'deepcopy', 'dict', 'list', 'tuple') and len(t[2]) == 1:
        return origin(eng, t[2][0], st, depth + 1)
    if t[0] == 'call' and t[1].split('.')[-1] in ('copy', 'deepcopy') and len(t[2]) == 1:
        return origin(eng, t[2][0], st, depth + 1)
    if t[0] == 'slice' and all(x == NONE for x in t[2:5]):
        return origin(eng, t[1], st, depth + 1)
    if t[0] == 'dict':
        ls = st.heap.get(('D', t[1]))
        if ls and len(ls) == 1 and ls[0][0] == 'upd':
            return origin(eng, ls[0][1], st, depth + 1)
        if ls and len(ls) == 1 and ls[0][0] == 'star':
            sp = loop_space(eng, ls[0][1])
            if sp is not None:
                return origin(eng, sp, st, depth + 1)
        return ('copyof?', t)
    if t[0] == 'list':
        ls = st.heap.get(('L', t[1]))
        if ls and len(ls) == 1 and ls[0][0] == 'star':
            sp = loop_space(eng, ls[0][1])
            if sp is not None:
                return origin(eng, sp, st, depth + 1)
        return ('copyof?', t)
    return t


def loop_space(eng, lid):
    L = eng.loops.get(lid)
    if L is None or not isinstance(L.space, tuple) or not L.space:
        return None
    s = L.space
    while s[0] in ('fn', 'call') and s[1].split('.')[-1] in ('items', 'keys', 'iter') and s[2]:
        s = s[2][0]
    return s


# ---------------------------------------------------------------- carried
def latches(prog, mods, fis):
    """attributes only ever set True (or, from None, to a value), with the guard that makes it happen once"""
    out = set()
    for a, ws in mods.items():
        if all(isinstance(w[2], ast.Constant) and w[2].value is True for w in ws):
            out.add(a)
    return out


def none_latch(a, ws, fis):
    """assigned only where it is None"""
    return all(w[3] == 'assign' and guarded(w[0], w[1], {a}, only_none=True) for w in ws)


def parents(fi):
    p = getattr(fi, '_parents', None)
    if p is None:
        p = {}
        for n in ast.walk(fi.node):
            for c in ast.iter_child_nodes(n):
                p[c] = n
        fi._parents = p
    return p


def aliases(fi):
    """local names that hold an attribute of the object"""
    out = {}
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name) \
                and fi.args and n.value.value.id == fi.args[0]:
            for t in n.targets:
                if isinstance(t, ast.Name):
                    out[t.id] = n.value.attr
    return out


def attr_of(fi, e):
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and fi.args and e.value.id == fi.args[0]:
        return e.attr
    if isinstance(e, ast.Name):
        return aliases(fi).get(e.id)
    return None


def holds_not(fi, test, flags, only_none, positive=True):
    """the test being `positive` implies that a flag is not set yet"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        if positive and attr_of(fi, test.operand) in flags:
            return True
        return holds_not(fi, test.operand, flags, only_none, not positive)
    if isinstance(test, ast.BoolOp):
        if isinstance(test.op, ast.And) == positive:
            return any(holds_not(fi, v, flags, only_none, positive) for v in test.values)
        return all(holds_not(fi, v, flags, only_none, positive) for v in test.values)
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and attr_of(fi, test.left) in flags:
        c = test.comparators[0]
        if isinstance(c, ast.Constant) and c.value in (None, False):
            return isinstance(test.ops[0], (ast.Is, ast.Eq)) == positive
    if not positive and attr_of(fi, test) in flags:
        return True
    return False


def guarded(fi, node, flags, only_none=False):
    ps = parents(fi)
    n = node
    while n in ps:
        p = ps[n]
        if isinstance(p, ast.If):
            if n in p.body and holds_not(fi, p.test, flags, only_none, True):
                return True
            if n in p.orelse and holds_not(fi, p.test, flags, only_none, False):
                return True
        for fld in ('body', 'orelse', 'finalbody'):
            blk = getattr(p, fld, None)
            if isinstance(blk, list) and n in blk:
                for s in blk[:blk.index(n)]:
                    if isinstance(s, ast.If) and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) \
                            and holds_not(fi, s.test, flags, only_none, False):
                        return True
        n = p
    return False


def once(prog, cls, R, mods, attr):
    """the attribute is set up once: every change is made where a flag that is only ever set has not been set yet"""
    ls = latches(prog, mods, R)
    if none_latch(attr, mods[attr], R):
        return True
    ls = {a for a in ls if all(guarded(w[0], w[1], {a}) or called_once(R, w[0], {a}, set()) for w in mods[a])}
    if not ls:
        return False
    return all(guarded(w[0], w[1], ls) or called_once(R, w[0], ls, set()) for w in mods[attr])


def called_once(R, fi, flags, seen):
    """every call of the method is made under the guard"""
    if fi.qual in seen:
        return False
    sites = []
    for g in R.values():
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == fi.name:
                sites.append((g, n))
    return bool(sites) and all(guarded(g, n, flags) or called_once(R, g, flags, seen | {fi.qual}) for g, n in sites)


def transient(R, mods, attr):
    """handed over within a run: whoever uses its contents clears it"""
    ws = mods[attr]
    clears = {w[0].qual for w in ws if isinstance(w[2], ast.Constant) and w[2].value is None}
    if not clears:
        return False
    for g in R.values():
        ps = parents(g)
        for n in ast.walk(g.node):
            if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Load):
                p = ps.get(n)
                if isinstance(p, ast.Compare) and len(p.ops) == 1 and isinstance(p.ops[0], (ast.Is, ast.IsNot)):
                    continue
                if g.qual not in clears and not any(
                        isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and
                        any(q.split('.')[-1] == x.func.attr for q in clears) for x in ast.walk(g.node)):
                    return False
    return True


def inputs(prog, cls, c):
    """attributes written (outside the constructor) only with parameters of setup: the rectangle"""
    return set()


def carried(prog, rep, c):
    cls = prog.cls(c)
    su, rn, gs, ss = (method(prog, c, m) for m in ('setup', 'run', 'get_state', 'set_state'))
    ca = Carried(prog, cls)
    ex = ca.sequence([su, rn])
    R = reachable(prog, cls, rn)
    rep.functions |= set(R)
    skip = {su.qual, gs.qual, ss.qual}
    mods = modified(prog, cls, [f for q, f in R.items() if q not in skip])
    part = None
    saved = summary_save(prog, rep, gs)
    restored = summary_restore(prog, rep, ss)
    if saved is None or restored is None:
        rep.unk('carried', gs.loc(), 'get_state or set_state not understood')
        return
    n = 0
    for a, (fi, node) in sorted(ex.items()):
        if a not in mods:
            continue
        n += 1
        if once(prog, cls, R, mods, a):
            rep.ok('carried', fi.loc(node))
            continue
        if a not in restored:
            if transient(R, mods, a):
                rep.ok('carried', fi.loc(node))
                continue
            w = mods[a][0]
            rep.bad('carried', fi.loc(node), '%s.%s is read here in a later run, %s changes it, but set_state does not '
                    'put it back' % (c, a, w[0].loc(w[1])), key='%s.%s' % (c, a))
            continue
        rep.ok('carried', fi.loc(node))
        roundtrip(rep, c, a, saved, restored, gs, ss)
    # whatever else is saved has to come back too
    for k, (orig, loc) in saved.items():
        hit = [a for a, alts in restored.items() if any(x == k for _, x, _ in alts)]
        n += 1
        if not hit and any(x == '?' for alts in restored.values() for _, x, _ in alts):
            rep.unk('roundtrip', loc, 'use of %r' % k)
        elif not hit:
            rep.bad('roundtrip', loc, '%r is saved but set_state of %s does not use it' % (k, c), key='%s:%s' % (c, k))
        elif orig is not None:
            if orig[0] != 'copyof?':
                same = orig in hit
                rep.check(True if same else False if isinstance(orig, str) else None, 'roundtrip', loc,
                          '%r is saved from %s but restored into %s' % (k, orig, ', '.join(hit)))
    rep.count('carried attributes of ' + c, n)


def roundtrip(rep, c, a, saved, restored, gs, ss):
    for facts_none, src, loc in restored[a]:
        if src is None:          # not written on this path
            keys = {x for _, x, _ in restored[a] if x}
            if '?' in keys:
                rep.unk('roundtrip', ss.loc(), 'when %s.%s is put back' % (c, a))
            elif not any(k in facts_none for k in keys):
                rep.bad('roundtrip', ss.loc(), 'set_state leaves %s.%s as it is although a saved value is given' % (c, a),
                        key='%s.%s:cond' % (c, a))
            else:
                rep.ok('roundtrip', ss.loc())
        elif src == '?':
            rep.unk('roundtrip', loc, 'value restored into %s.%s' % (c, a))
        elif src == '!':
            rep.bad('roundtrip', loc, 'set_state gives %s.%s a value that does not come from the saved position' % (c, a),
                    key='%s.%s:value' % (c, a))
        else:
            rep.check(True if src in saved else False, 'roundtrip', loc,
                      '%s.%s is restored from %r, which get_state does not save' % (c, a, src))


def summary_save(prog, rep, gs):
    """key -> (attribute saved, location)"""
    copyq = {g.qual for g in prog.all_functions() if g.name in ('copy', 'deepcopy')}
    eng = Engine(prog, opaque=copyq)
    out = {}
    for p in eng.analyse(gs):
        rep.functions |= eng.analysed
        if p.raised:
            continue
        r = p.ret
        if r is None or r[0] != 'dict':
            return None
        for l in p.state.heap.get(('D', r[1]), ()):
            if l[0] != 'kv' or l[1][0] != 'c':
                return None
            o = origin(eng, l[2], p.state)
            if o[0] == 'attr' and (o[1] == SELF or o[1][0] == 'attr' and o[1][1] == SELF):
                o = o[2]
            elif o[0] != 'copyof?':
                o = None if not is_c(o) else '<a constant>'
            k = l[1][2]
            if k in out and out[k][0] != o:
                return None
            out[k] = (o, gs.loc())
    return out or None


def summary_restore(prog, rep, ss):
    """attribute -> [(parameters known to be None, source parameter or None/'?', location)] over the paths"""
    copyq = {g.qual for g in prog.all_functions() if g.name in ('copy', 'deepcopy')}
    eng = Engine(prog, opaque=copyq)
    rows = []
    for p in eng.analyse(ss):
        rep.functions |= eng.analysed
        if p.raised:
            continue
        nones = {f[1][1] for f, b in p.facts.items() if f[0] == 'isnone' and b and f[1][0] == 'sym'}
        w = {}
        for e, _ in all_events(p.trace):
            if e.kind == 'write' and (e.a[0] == SELF or e.a[0][0] == 'attr' and e.a[0][1] == SELF):
                o = origin(eng, e.a[2], p.state)
                src = '?'
                if o[0] == 'sym':
                    src = o[1]
                elif o[0] == 'attr' and o[1] == e.a[0] and o[2] == e.a[1]:
                    src = None
                elif is_c(o) or o[0] == 'attr' and o[1] == SELF:
                    src = '!'
                elif e.a[2][0] in ('list', 'dict') and p.state.heap.get(('D' if e.a[2][0] == 'dict' else 'L', e.a[2][1])) in ((), []):
                    src = '!'
                w[e.a[1]] = (src, e.loc)
        rows.append((nones, w))
    if not rows:
        return None
    attrs = {a for _, w in rows for a in w}
    return {a: [(nones, w[a][0] if a in w else None, w[a][1] if a in w else None) for nones, w in rows] for a in attrs}


# ---------------------------------------------------------------- resuming
NAMES = {'set_state', 'get_state', 'run', 'finished'}


def mentions_names(fi, names):
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Attribute) and n.attr in names:
            return True
    return False


def layout_objects(prog):
    out = set()
    for c in LAYOUT:
        for k in prog.mro(prog.cls(c)):
            out.add(k.name)
    return out


def roots(prog):
    """functions that run layout objects which may have been interrupted before"""
    lay = layout_objects(prog)
    out = []
    for fi in prog.all_functions():
        if fi.name in ('set_state', 'get_state'):
            continue
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('set_state', 'get_state'):
                out.append(fi)
                break
    # helpers are judged where they are called
    res = []
    for fi in out:
        runs = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'run' for n in ast.walk(fi.node))
        if runs:
            res.append(fi)
            continue
        for g in prog.all_functions():
            if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == fi.name
                   or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == fi.name for n in ast.walk(g.node)):
                if g.name not in ('set_state', 'get_state'):
                    res.append(g)
    seen, uniq = set(), []
    for fi in res:
        if fi.qual not in seen:
            seen.add(fi.qual)
            uniq.append(fi)
    return uniq


def obj_event(e):
    """(object, method, args, kwargs, result) of a call on a layout object"""
    if e.kind == 'mcall':
        return e.a[0], e.a[1], e.a[2], e.a[3], e.a[4]
    if e.kind == 'call':
        return e.a[1], e.a[0].split('.')[-1], e.a[2], (), e.a[3]
    return None


def resume(prog, rep):
    own = {q for c in LAYOUT for m in ('run', 'set_state', 'get_state', 'setup')
           for q in [method(prog, c, m).qual]}
    resets = {c for c in LAYOUT if always_unfinished(prog, c)}
    n = 0
    for fi in roots(prog):
        opaque = {g.qual for g in prog.all_functions()
                  if g.qual in own or not mentions_names(g, NAMES) and not (g.cls and g in g.cls.getters.values())}
        opaque |= {prog.find_method(prog.cls(c), '__init__', 'methods').qual for c in LAYOUT}
        opaque |= {g.qual for g in prog.all_functions() if g.module is not fi.module and not (g.cls and g in g.cls.getters.values())}
        opaque.discard(fi.qual)
        eng = Engine(prog, opaque=opaque)
        for p in eng.analyse(fi):
            rep.functions |= eng.analysed
            if p.raised:
                continue
            for tr, st, own_part in parts_of(p):
                n += judge(rep, eng, fi, p, tr, st, prog, resets)
    rep.count('paths that run or resume elements', n)


def parts_of(p):
    out = [([e for e in p.trace if e.kind != 'loop'], p.state, True)]
    for e, ctx in all_events(p.trace):
        pass
    for e in p.trace:
        if e.kind == 'loop':
            L = e.a if isinstance(e.a, Loop) else e.a[0]
            for s, sig in L.parts:
                out.append((s.trace[s.base:], s, False))
    return out


def judge(rep, eng, fi, p, tr, st, prog, resets):
    evs = list(tr)
    objs = []
    for e in evs:
        x = obj_event(e)
        if x and x[1] in ('run', 'set_state', 'get_state') and x[0] is not None and x[0] != SELF and x[0] not in objs:
            objs.append(x[0])
    n = 0
    for o in objs:
        idx = [(i, e) + obj_event(e)[1:] for i, e in enumerate(evs) if obj_event(e) and obj_event(e)[0] == o]
        runs = [i for i, e, m, *_ in idx if m == 'run']
        sets = [(i, e, a, k) for i, e, m, a, k, r in idx if m == 'set_state']
        gets = [(i, e, r) for i, e, m, a, k, r in idx if m == 'get_state']
        fin = [i for i, e in enumerate(evs) if e.kind == 'write' and e.a[0] == o and e.a[1] == 'finished'
               and e.a[2] == C(False)]
        n += 1
        for i, e, a, k in sets:
            lo = max([r for r in runs if r < i], default=-1)
            hi = min([r for r in runs if r > i], default=len(evs))
            ok = any(lo < f < hi for f in fin) or o[0] == 'obj' and o[1] in resets
            if not ok and len(resets) == len(LAYOUT):
                ok = True
            rep.check(ok, 'resume', e.loc, 'an element is put back to a saved position but may stay marked as finished')
            state_args(rep, fi, e, a, k, o, prog)
        stored = o[0] in ('idx', 'get') and is_c(o[2])
        if runs and stored:
            ok = any(i < runs[0] for i, *_ in sets)
            rep.check(ok, 'resume', evs[runs[0]].loc, 'the interrupted element %s is run again without being put back to its '
                      'saved position where %s' % (show(o)[:60], p.where()[:120]))
        # handed on
        if runs:
            for d, ls, loc in holders(eng, evs, st, o):
                if not handed_on(p, st, d, fi):
                    continue
                vals = [v for k, v in ls if k is not None]
                good = [(i, r) for i, e, r in gets if any(v == r for v in vals)]
                if good:
                    rep.check(True if good[-1][0] > runs[-1] else False, 'saved', evs[good[-1][0]].loc,
                              'the position handed on with the element is taken before its run')
                elif stale(ls, o):
                    rep.bad('saved', loc, 'an interrupted element is handed on without the position reached by this run where %s'
                            % p.where()[:150])
                else:
                    rep.unk('saved', loc, 'position handed on')
    return n


def stale(ls, o):
    """no entry of the dictionary comes from elsewhere than a constant, the object or an earlier position"""
    for k, v in ls:
        if k is None:
            return False
    return True


def finished_known(p, o):
    for f, b in p.facts.items():
        if f[0] == 'truthy' and f[1][0] == 'attr' and f[1][1] == o and f[1][2] == 'finished':
            return b
    return None


def holders(eng, evs, st, o):
    """dictionaries that hold the object: (term, [(key, value)], location)"""
    out = {}
    for k, v in st.heap.items():
        if k[0] == 'D':
            ls = []
            for l in layers(st, v):
                if l[0] == 'kv' and l[1][0] == 'c':
                    ls.append((l[1][2], l[2]))
                elif l[0] == 'upd':
                    ls.append((None, l[1]))
                else:
                    ls.append((None, None))
            if o[0] in ('idx', 'get') and is_c(o[2]):
                ls = [(o[2][2], o) if x[0] is None and x[1] in (o[1], ('fn', 'copy', (o[1],))) else x for x in ls]
            if any(x[1] == o for x in ls):
                out[('dict', k[1])] = [ls, None]
    ent = {}
    for e in evs:
        if e.kind == 'setitem' and is_c(e.a[1]):
            ent.setdefault(e.a[0], [[], None])
            ent[e.a[0]][0].append((e.a[1][2], e.a[2]))
            ent[e.a[0]][1] = e.loc
        elif e.kind == 'mut' and e.a[1] == 'update' and len(e.a[2]) == 1 and e.a[2][0][0] == 'dict':
            ent.setdefault(e.a[0], [[], None])
            ls = st.heap.get(('D', e.a[2][0][1]), ())
            for l in ls:
                if l[0] == 'kv' and is_c(l[1]):
                    ent[e.a[0]][0].append((l[1][2], l[2]))
            ent[e.a[0]][1] = e.loc
    for t, (ls, loc) in ent.items():
        if t[0] != 'dict' and any(v == o for _, v in ls):
            out[t] = [ls, loc]
        elif t in out and loc:
            out[t][1] = loc
    last = next((e.loc for e in reversed(evs) if hasattr(e, 'loc')), '')
    if o[0] in ('idx', 'get'):
        # a copy of the dictionary the element was taken from holds it as well, with its old position
        r = ('fn', 'copy', (o[1],))
        ls, loc = ent.get(r, [[], None])
        out[r] = [[(o[2][2] if is_c(o[2]) else None, o)] + list(ls), loc]
        for e in evs:
            x = obj_event(e) if e.kind == 'mcall' else None
            r, src = None, None
            if e.kind == 'call' and e.a[0].split('.')[-1] in ('copy', 'deepcopy') and e.a[2]:
                r, src = e.a[3], e.a[2][0][1]
            elif x and x[1] == 'copy':
                r, src = x[4], x[0]
            if r is not None and src == o[1]:
                ls, loc = ent.get(r, [[], None])
                out[r] = [[(o[2][2] if is_c(o[2]) else None, o)] + list(ls), loc]
    return [(t, ls, loc or last) for t, (ls, loc) in out.items()]


def layers(st, v, depth=0):
    for l in v:
        if l[0] == 'upd' and l[1][0] == 'dict' and ('D', l[1][1]) in st.heap and depth < 5:
            yield from layers(st, st.heap[('D', l[1][1])], depth + 1)
        else:
            yield l


def handed_on(p, st, d, fi):
    """the dictionary leaves the function: a parameter, or part of what is returned"""
    if d[0] == 'sym':
        return True
    todo, seen, opened = [p.ret] if p.ret is not None else [], set(), set()
    while todo:
        t = todo.pop()
        if t is None or t in seen:
            continue
        seen.add(t)
        if t == d:
            return True
        for x in subterms(t):
            if x == d:
                return True
            if x[0] == 'dict' and x not in opened:
                opened.add(x)
                for l in st.heap.get(('D', x[1]), ()):
                    if l[0] == 'kv':
                        todo.append(l[2])
            elif x[0] == 'list':
                todo += [y for y in st.heap.get(('L', x[1]), ()) if isinstance(y, tuple) and y and y[0] not in ('star', 'unk')]
    return False


def state_args(rep, fi, e, args, kws, o, prog):
    """the restored position is the one saved with the same element"""
    src = None
    for k, v in kws:
        if k == '**':
            src = v
    if src is None:
        for x in args:
            if isinstance(x, tuple) and len(x) == 2 and x[0] == '**':
                src = x[1]
    if src is None:
        rep.ok('resume', e.loc)
        return
    if o[0] in ('idx', 'get') and src[0] in ('idx', 'get'):
        rep.check(True if src[1] == o[1] else False, 'resume', e.loc,
                  'the position restored, %s, was not saved with the element %s' % (show(src)[:60], show(o)[:60]))
    else:
        rep.ok('resume', e.loc)


def always_unfinished(prog, c):
    """run or set_state of the class marks the object unfinished itself"""
    for m in ('set_state', 'run', 'setup'):
        fi = method(prog, c, m)
        for s in fi.node.body:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) and s.value.value is False and \
                    any(isinstance(t, ast.Attribute) and t.attr == 'finished' for t in s.targets):
                return True
    return False


# ---------------------------------------------------------------- nested boxes
def children(prog, rep):
    cls = prog.cls('PDFContentPart')
    ss = method(prog, 'PDFContentPart', 'set_state')
    su = method(prog, 'PDFContentPart', 'setup')
    copyq = {g.qual for g in prog.all_functions() if g.name in ('copy', 'deepcopy')}
    # current -> section attribute, from setup
    pairs = section_pairs(prog, rep)
    if not pairs:
        rep.unk('children', su.loc(), 'current and section positions not recognised')
        return
    # what is remembered: key -> current attribute
    ns = method(prog, 'PDFContentPart', 'next_section')
    keep = copyq | {g.qual for g in prog.all_functions() if g.qual == ns.qual}
    eng = Engine(prog, opaque=keep - {ns.qual} | {q for q in (method(prog, 'PDFContentPart', 'go_to_beginning').qual,)})
    memory = {}
    nm = 0
    for p in eng.analyse(ns):
        rep.functions |= eng.analysed
        if p.raised:
            continue
        evs = [e for e, _ in all_events(p.trace)]
        w = {}
        for e in evs:
            if e.kind == 'write' and e.a[0] == SELF:
                w[e.a[1]] = (origin(eng, e.a[2], p.state), e)
        sec = [s for s in pairs.values() if s in w]
        if sec:
            nm += 1
            for cur, s in pairs.items():
                if s not in w:
                    rep.bad('children', ns.loc(), 'the section position is only partly remembered: %s is not' % s, key=s)
                else:
                    o = w[s][0]
                    good = o[0] == 'attr' and o[1] == SELF and o[2] == cur
                    rep.check(True if good else False if o[0] == 'attr' or is_c(o) else None, 'children', w[s][1].loc,
                              '%s is set to %s when a section ends' % (s, show(o)[:60]))
        # handed to the parent
        for k, v in p.state.heap.items():
            if k[0] == 'D':
                ent = {l[1][2]: origin(eng, l[2], p.state) for l in v if l[0] == 'kv' and is_c(l[1])}
                m = {key: o[2] for key, o in ent.items() if o[0] == 'attr' and o[1] == SELF and o[2] in pairs}
                if m:
                    for cur in pairs:
                        if cur not in m.values():
                            rep.bad('children', ns.loc(), 'what is remembered of a nested box leaves out its %s' % cur, key='mem:' + cur)
                    memory.update(m)
        if sec:
            levels(prog, rep, eng, p, ns, pairs, w, evs)
    rep.count('paths of next_section that end a section', nm)
    if not memory:
        rep.unk('children', ns.loc(), 'memory of nested boxes not recognised')
        return
    # put back
    init = method(prog, 'PDFContentPart', '__init__')
    # only what changes positions is looked into
    posn = set(pairs) | set(pairs.values())
    nr = 0
    for fi in cls.methods.values():
        if fi.qual in (init.qual,) or not any(isinstance(x, ast.Name) and x.id == 'PDFContentPart' for x in ast.walk(fi.node)):
            continue
        opaque = {g.qual for g in prog.all_functions() if g.qual != fi.qual and not writes_attrs(g, posn)} | copyq | {init.qual, ns.qual}
        opaque |= {method(prog, 'PDFContentPart', 'run').qual}
        eng = Engine(prog, opaque=opaque)
        for p in eng.analyse(fi):
            rep.functions |= eng.analysed
            if p.raised:
                continue
            evs = [e for e, _ in all_events(p.trace)]
            for e in evs:
                if e.kind != 'new' or e.a[1] != 'PDFContentPart':
                    continue
                o = e.a[0]
                nr += 1
                w = {x.a[1]: (x.a[2], x) for x in evs if x.kind == 'write' and x.a[0] == o}
                if not any(a in w for a in posn):
                    # nothing remembered: allowed only where there is nothing to restore
                    continue
                runs = [i for i, x in enumerate(evs) if obj_event(x) and obj_event(x)[0] == o and obj_event(x)[1] == 'run']
                src = set()
                for cur, sec in pairs.items():
                    for a in (cur, sec):
                        if a not in w:
                            rep.bad('children', fi.loc(e.node), 'a nested box is put back to a remembered position without its %s' % a, key='put:' + a)
                            continue
                        v = origin(eng, w[a][0], p.state)
                        key = v[2][2] if v[0] in ('idx', 'get') and is_c(v[2]) else None
                        good = key in memory and memory[key] == cur
                        rep.check(True if good else False if key is not None else None, 'children', w[a][1].loc,
                                  '%s of a nested box is put back from %s' % (a, show(v)[:70]))
                        if good:
                            src.add(v[1])
                        if runs and evs.index(w[a][1]) > runs[0]:
                            rep.bad('children', w[a][1].loc, '%s of a nested box is put back after its run' % a, key='late:' + a)
                if len(src) == 1:
                    m = src.pop()
                    last = m[0] == 'idx' and m[2] == C(-1)
                    rep.check(True if last else False if m[0] == 'idx' and is_c(m[2]) else None, 'children', fi.loc(e.node),
                              'the position of a nested box is taken from %s, not from the innermost remaining level' % show(m)[:60])
                    rest = [v for a, (v, x) in w.items() if a not in posn and (v[0] in ('slice', 'list', 'attr', 'fn') or is_c(v))]
                    if undetermined(p, m):
                        rep.unk('children', fi.loc(e.node), 'which memory is used')
                        continue
                    good = any(v[0] == 'slice' and v[1] == m[1] and v[3] == C(-1) and v[2] == NONE for v in rest) if last else None
                    if last and not good:
                        bad = not rest or all(v[0] in ('attr', 'slice', 'list') or is_c(v) for v in rest)
                        rep.check(False if bad else None, 'children', fi.loc(e.node), 'what is remembered of deeper levels is not handed on to the nested box')
                    else:
                        rep.check(good, 'children', fi.loc(e.node), 'deeper levels')
                elif len(src) > 1:
                    rep.bad('children', fi.loc(e.node), 'a nested box is put back partly from one memory and partly from another', key='mixed')
    rep.count('nested boxes created', nr)


def levels(prog, rep, eng, p, ns, pairs, w, evs):
    """each level adds its own position after the deeper ones, and remembers the deeper ones itself"""
    if len(ns.args) < 2:
        return
    par = ('sym', ns.args[1])
    first = p.facts.get(('isnone', par))
    if first is None:
        return
    ss = method(prog, 'PDFContentPart', 'set_state')
    kept = {n.attr for n in ast.walk(ss.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)} - set(pairs.values())
    for a in kept:
        if a not in w:
            rep.bad('children', ns.loc(), '%s is left as it was when a section ends' % a, key='level:' + a)
            continue
        o, e = w[a]
        if first:
            raw = e.a[2]
            empty = raw[0] == 'list' and not p.state.heap.get(('L', raw[1])) or raw == NONE
            rep.check(True if empty else False if is_c(raw) or o[0] in ('attr', 'sym') or raw[0] == 'list' else None, 'children', e.loc,
                      '%s of the innermost box is %s' % (a, show(raw)[:60]))
        else:
            rep.check(True if o == par else False if o[0] == 'attr' or is_c(o) or o[0] == 'list' else None, 'children', e.loc,
                      '%s is set to %s, not to what the deeper levels remembered' % (a, show(o)[:60]))
    for i, e in enumerate(evs):
        if e.kind != 'call' or e.a[0] != ns.qual or not e.a[2]:
            continue
        v = e.a[2][0][1]
        own = None
        if v[0] == 'list' and p.state.heap.get(('L', v[1])) is not None:
            items = p.state.heap[('L', v[1])]
            last = items[-1] if items else None
            own = bool(last) and last[0] == 'dict'
            if own and not first and not (len(items) == 2 and items[0][0] == 'star'):
                own = None
            if own and first and len(items) != 1:
                own = None
        elif origin(eng, v, p.state) == par:
            ops = [x for x in evs[:i] if (x.kind == 'append' and x.a[0] == v) or
                   (x.kind in ('mut', 'mcall') and x.a[0] == v)]
            adds = [x for x in ops if x.kind == 'append']
            if not ops:
                own = False
            elif len(ops) == len(adds) == 1:
                own = adds[0].a[1][0] == 'dict'
            elif any(x.a[1] == 'insert' and x.a[2] and x.a[2][0] == C(0) for x in ops if x.kind != 'append'):
                own = False
        rep.check(own, 'children', e.loc, 'what is handed to the enclosing level does not end with the position of this level after the deeper ones')


def undetermined(p, m):
    """the path rests on an unresolved comparison of the memory with another object"""
    for f, b in p.facts.items():
        if f[0] == 'truthy' and f[1][0] == 'is':
            f = f[1]
        if b and f[0] in ('eq', 'is') and m[0] == 'idx' and (f[1] == m[1] or f[2] == m[1]) and NONE not in f[1:]:
            return True
    return False


def writes_attrs(g, names):
    for n in ast.walk(g.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr in names:
            return True
    return False


def section_pairs(prog, rep):
    """current position attribute -> the attribute it starts from, as written by setup"""
    su = method(prog, 'PDFContentPart', 'setup')
    ss = method(prog, 'PDFContentPart', 'set_state')
    copyq = {g.qual for g in prog.all_functions() if g.name in ('copy', 'deepcopy')}
    eng = Engine(prog, opaque=copyq | {method(prog, 'PDFContentPart', 'save_indexes').qual})
    saved = {n.attr for n in ast.walk(ss.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
    out = {}
    for p in eng.analyse(su):
        if p.raised:
            continue
        for e, _ in all_events(p.trace):
            if e.kind == 'write' and e.a[0] == SELF:
                o = origin(eng, e.a[2], p.state)
                if o[0] == 'attr' and o[1] == SELF and o[2] in saved:
                    out[e.a[1]] = o[2]
    return out


def reset(prog, rep):
    pairs = section_pairs(prog, rep)
    rs = method(prog, 'PDFContentPart', 'reset')
    copyq = {g.qual for g in prog.all_functions() if g.name in ('copy', 'deepcopy')}
    eng = Engine(prog, opaque=copyq)
    n = 0
    begin = begin_writes(prog)
    for p in eng.analyse(rs):
        rep.functions |= eng.analysed
        if p.raised:
            continue
        r = p.ret
        if r == C(False) or r is None or r == NONE:
            continue
        n += 1
        w = {}
        for e, _ in all_events(p.trace):
            if e.kind == 'write' and e.a[0] == SELF:
                w[e.a[1]] = (origin(eng, e.a[2], p.state), e)
        for cur, sec in pairs.items():
            if cur not in w:
                rep.bad('reset', rs.loc(), '%s is not put back to the beginning of the section when it is laid out again' % cur, key=cur)
                continue
            o = w[cur][0]
            rep.check(True if o[0] == 'attr' and o[1] == SELF and o[2] == sec else False if o[0] == 'attr' or is_c(o) else None, 'reset',
                      w[cur][1].loc, '%s is set to %s when a section is laid out again' % (cur, show(o)[:60]))
            if o[0] == 'attr' and mutable_in_place(prog, cur):
                raw = [e.a[2] for e, _ in all_events(p.trace) if e.kind == 'write' and e.a[0] == SELF and e.a[1] == cur][-1]
                if raw == o:
                    rep.bad('reset', w[cur][1].loc, '%s becomes the remembered list itself, which laying out further changes' % cur, key='alias:' + cur)
                else:
                    rep.ok('reset', w[cur][1].loc)
        for a, v in begin.items():
            got = w.get(a)
            rep.check(True if got is not None and got[0] == v else False if got is None else None, 'reset', rs.loc(),
                      '%s is not put back to its value at the beginning of the section' % a)
    rep.count('paths of reset that lay a section out again', n)


def begin_writes(prog):
    """attribute -> value at the beginning of a section"""
    try:
        g = method(prog, 'PDFContentPart', 'go_to_beginning')
    except AnchorMissing:
        return {}
    eng = Engine(prog)
    ps = [p for p in eng.analyse(g) if not p.raised]
    if len(ps) != 1:
        return {}
    return {e.a[1]: e.a[2] for e, _ in all_events(ps[0].trace) if e.kind == 'write' and e.a[0] == SELF}


def mutable_in_place(prog, attr):
    cls = prog.cls('PDFContentPart')
    m = modified(prog, cls, list(cls.methods.values()))
    return any(x[3] in ('item', 'call') for x in m.get(attr, ()))


# ---------------------------------------------------------------- aliasing
def alias(prog, rep):
    """a container that layout changes in place is copied both when it is saved and when it is restored"""
    n = 0
    for c in LAYOUT:
        cls = prog.cls(c)
        gs, ss = method(prog, c, 'get_state'), method(prog, c, 'set_state')
        skip = {gs.qual, ss.qual}
        mods = modified(prog, cls, [f for f in cls.methods.values() if f.qual not in skip])
        inplace = {a for a, ws in mods.items() if any(x[3] in ('item', 'call') for x in ws)}
        copyq = {g.qual for g in prog.all_functions() if g.name in ('copy', 'deepcopy')}
        eng = Engine(prog, opaque=copyq)
        for p in eng.analyse(gs):
            if p.raised or p.ret is None or p.ret[0] != 'dict':
                continue
            for l in p.state.heap.get(('D', p.ret[1]), ()):
                if l[0] != 'kv':
                    continue
                n += 1
                v = l[2]
                if v[0] == 'attr' and v[1] == SELF and v[2] in inplace:
                    w = [x for x in mods[v[2]] if x[3] in ('item', 'call')][0]
                    rep.bad('alias', gs.loc(), 'the saved position of %s holds %s itself, and %s changes it in place'
                            % (c, v[2], w[0].loc(w[1])), key='save:%s.%s' % (c, v[2]))
                else:
                    rep.ok('alias', gs.loc())
        for p in eng.analyse(ss):
            if p.raised:
                continue
            for e, _ in all_events(p.trace):
                if e.kind != 'write' or e.a[0] != SELF:
                    continue
                n += 1
                if e.a[2][0] == 'sym' and e.a[1] in inplace:
                    w = [x for x in mods[e.a[1]] if x[3] in ('item', 'call')][0]
                    rep.bad('alias', e.loc, 'set_state of %s keeps the saved %s itself, and %s changes it in place'
                            % (c, e.a[2][1], w[0].loc(w[1])), key='restore:%s.%s' % (c, e.a[1]))
                else:
                    rep.ok('alias', e.loc)
    rep.count('containers in saved positions', n)
