"""C02: numbering of objects.  Value flow of PDFBase.add (induction on count = number of objects + 1), effect
analysis of who may change the object list, the counter and object ids, reference rendering, trailer Root."""
import ast
from .common import *
from ..access import all_mutations, private_closure, expr_type

TECHNIQUE = ('value-flow analysis of PDFBase.add by induction on the counter, whole-package effect analysis (who may '
             'write the object list, the counter and object ids; who may construct references), value flow to trailer Root')


def run(prog, rep):
    rep.rule('base', 'a new file starts with no objects and the counter at one')
    rep.rule('step', 'add appends exactly one object whose id is the counter and advances the counter by one, or leaves both alone')
    rep.rule('owner', 'only PDFBase.add (and PDFBase itself) changes the object list, the counter and object ids')
    rep.rule('refs', 'references are only created by PDFBase.add and rendered as "N 0 R" from their own number')
    rep.rule('root', 'trailer Root is the id of the catalog object')
    rep.section('step', numbering, prog, rep)
    rep.section('owner', owners, prog, rep)
    rep.section('refs', refs, prog, rep)
    rep.section('root', root, prog, rep)


def numbering(prog, rep):
    init = prog.func('PDFBase.__init__')
    add = prog.func('PDFBase.add')
    eng = Engine(prog)
    self_ = ('sym', init.args[0])
    hascount = False
    for p in eng.analyse(init):
        if p.raised:
            continue
        c = p.attr(self_, 'content')
        if c is None or c[0] != 'list':
            rep.unk('base', init.loc(), 'object list %s' % (show(c) if c else 'not set'))
        else:
            rep.check(p.heap.get(('L', c[1]), ()) == (), 'base', init.loc(), 'the object list does not start empty')
        n = p.attr(self_, 'count')
        if n is not None:
            hascount = True
            v = poly_const(n)
            rep.check(None if v is None else v == 1, 'base', init.loc(), 'the counter starts at %s' % show(n))
    rep.functions |= eng.analysed
    eng = Engine(prog)
    self_ = ('sym', add.args[0])
    content = ('attr', self_, 'content', 0)
    count = ('attr', self_, 'count', 0)
    ln = fn('len', content)

    def norm(t):
        return subst(t, lambda x: p_add(ln, C(1)) if x == count else None)
    for p in eng.analyse(add):
        apps, others = [], []
        for ev, st in all_events(p.trace):
            if st and ev.kind in ('append', 'mut', 'setitem') and ev.a[0] == content:
                others.append(ev)
            elif ev.kind in ('append', 'mut') and ev.a[0] == content:
                if ev.kind == 'append':
                    apps.append((ev, ev.a[1]))
                elif ev.a[1] == 'append':
                    apps.append((ev, ev.a[2][0]))
                elif ev.a[1] == 'extend' and ev.a[2][0][0] == 'list' and len(p.heap.get(('L', ev.a[2][0][1]), ())) == 1:
                    apps.append((ev, p.heap[('L', ev.a[2][0][1])][0]))
                else:
                    others.append(ev)
            elif ev.kind in ('setitem', 'del') and ev.a[0] == content:
                others.append(ev)
            elif ev.kind == 'write' and ev.a[0] == self_ and ev.a[1] == 'content':
                others.append(ev)
        cnt = p.attr(self_, 'count')
        if others:
            for ev in others:
                k = ev.a[1] if ev.kind == 'mut' else ev.kind
                if k in ('insert', 'pop', 'remove', 'clear', 'reverse', 'sort', 'setitem', 'del'):
                    rep.bad('step', ev.loc, 'the object list is changed by %s' % (k,))
                else:
                    rep.unk('step', ev.loc, 'object list changed by %s' % (k,))
            continue
        if p.raised:
            rep.check(not apps and (cnt is None or differ(cnt, count) is True), 'step', add.loc(),
                      'a rejected object changes the object list or the counter')
            continue
        if len(apps) != 1:
            rep.bad('step', add.loc(), '%d objects are appended when %s' % (len(apps), p.where() or 'adding'))
            continue
        ev, o = apps[0]
        if p.ret != o:
            rep.check(False if p.ret == NONE or p.ret[0] in ('obj', 'idx') else None, 'step', add.loc(), 'add returns %s instead of the object added' % show(p.ret))
        else:
            rep.ok('step', add.loc())
        i = p.attr(o, 'id') if o[0] == 'obj' else None
        num = refnum(prog, eng, p, i) if i is not None else None
        if num is None and i is None and o[0] == 'sym':
            rep.bad('step', ev.loc, 'an object that comes from outside is added with the number it already has')
        elif num is None:
            rep.unk('step', ev.loc, 'id of the object appended: %s' % (show(i) if i else show(o)))
        else:
            d = poly_const(p_sub(norm(num), p_add(ln, C(1))))
            rep.check(d == 0 if d is not None else None, 'step', ev.loc,
                      'the object gets number %s, its place in the list is %s' % (show(num), show(p_add(ln, C(1)))))
        if hascount:
            if cnt is None:
                rep.bad('step', add.loc(), 'the counter does not advance when %s' % (p.where() or 'an object is added'))
            else:
                d = poly_const(p_sub(norm(cnt), p_add(norm(count), C(1))))
                rep.check(d == 0 if d is not None else None, 'step', add.loc(), 'the counter becomes %s' % show(cnt))
    rep.functions |= eng.analysed


def refnum(prog, eng, p, i):
    """the number a PDFRef was made from"""
    if i[0] == 'call' and i[1].split('.')[0] in ('PDFRef', 'int') or (i[0] == 'call' and i[1] == 'PDFRef'):
        args = list(i[2]) + [v for n, v in i[3]]
        args = [a for a in args if a[0] != 'class']
        return args[-1] if args else None
    if i[0] == 'fn' and i[1] in ('PDFRef', 'int', 'new:PDFRef'):
        return i[2][-1]
    if i[0] == 'obj' and i[1] == 'PDFRef':
        for ev, st in all_events(p.trace):
            if ev.kind == 'new' and i in ev.a:
                args = [v for v in ev.a if isinstance(v, tuple) and v != i]
                for v in args:
                    for x in v:
                        if isinstance(x, tuple):
                            return x[1] if len(x) == 2 and isinstance(x[0], str) and isinstance(x[1], tuple) and x[0] in ('id_',) else x
    if eng.type_name(i) in ('Number', 'int'):
        return i
    return None


def owners(prog, rep):
    base = prog.cls('PDFBase')
    own = private_closure(prog, [m for m in (prog.find_method(base, x) for x in ('__init__', 'add')) if m])
    setitem = base.methods.get('__setitem__')
    n = 0
    for fi, node, bt, attr, how in all_mutations(prog):
        if bt == 'PDFBase' and attr in ('content', 'count'):
            n += 1
            if fi in own or fi is setitem:
                rep.ok('owner', fi.loc(node))
            elif attr == 'content' and how == 'append':
                rep.bad('owner', fi.loc(node), 'an object is appended without PDFBase.add')
            else:
                rep.bad('owner', fi.loc(node), 'PDFBase.%s is changed (%s) outside PDFBase.add' % (attr, how))
        elif bt == 'PDFObject' and attr == 'id':
            n += 1
            oi = prog.find_method(prog.cls('PDFObject'), '__init__')
            rep.check(fi is oi, 'owner', fi.loc(node), 'the id of an object is changed after it was numbered')
    for fi in prog.all_functions():
        for x in ast.walk(fi.node):
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                if expr_type(prog, fi, x.value) == 'PDFBase':
                    n += 1
                    rep.check(fi in own, 'owner', fi.loc(x), 'an object of the file is replaced')
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name):
                r = prog.resolve_name(fi.module, x.func.id)
                if r and r[0] == 'class' and r[1].name in ('PDFRef', 'PDFObject'):
                    n += 1
                    rep.check(fi in own, 'refs', fi.loc(x), '%s is created outside PDFBase.add' % r[1].name)
    rep.count('accesses to the object list, counter, ids and constructors', n)
    # dunder access used by the library: base[i] returns the object numbered i
    g = base.methods.get('__getitem__')
    if g is not None:
        eng = Engine(prog)
        s, i = ('sym', g.args[0]), ('sym', g.args[1])
        for p in eng.analyse(g):
            if p.raised or p.ret == NONE:
                continue
            r = p.ret
            if r[0] == 'idx' and r[1] == ('attr', s, 'content', 0):
                d = poly_const(p_sub(r[2], i))
                rep.check(None if d is None else d == -1, 'owner', g.loc(), 'base[n] is element %s of the object list' % show(r[2]))
            else:
                rep.unk('owner', g.loc(), 'base[n] is %s' % show(r))


def refs(prog, rep):
    c = prog.cls('PDFRef')
    g = prog.find_method(c, 'ref', 'getters') or prog.find_method(c, 'ref')
    if g is None:
        raise AnchorMissing('PDFRef.ref')
    eng = Engine(prog)
    s = ('sym', g.args[0])
    for p in eng.analyse(g):
        if p.raised:
            continue
        ps = cat_parts(p.ret)
        if len(ps) == 2 and ps[0][0] == 'hole' and ps[1][0] == 'lit':
            h = ps[0][1]
            if h[0] == 'fn' and h[1] in ('str', 'int', 'repr'):
                h = h[2][0]
            if h[0] == 'fn' and h[1] == 'str':
                h = h[2][0]
            rep.check(True if h == s else (False if poly_const(p_sub(h, s)) is not None else None), 'refs', g.loc(), 'a reference is rendered with %s instead of its number' % show(h))
            rep.check(ps[1][1] == ' 0 R', 'refs', g.loc(), 'a reference is rendered as N%s' % ps[1][1])
        elif ps and ps[0][0] == 'lit':
            rep.bad('refs', g.loc(), 'a reference is rendered as %s' % show(p.ret))
        else:
            rep.unk('refs', g.loc(), show(p.ret))
    new = c.methods.get('__new__')
    if new is not None and len(new.args) > 1:
        eng = Engine(prog)
        x = ('sym', new.args[1])
        for p in eng.analyse(new):
            if p.raised:
                continue
            r = p.ret
            args = [a for a in (r[2] if r[0] in ('call', 'fn') else ()) if isinstance(a, tuple)]
            if x in args:
                rep.ok('refs', new.loc())
            else:
                ds = [poly_const(p_sub(a, x)) for a in args if contains(a, x)]
                rep.check(False if any(d for d in ds if d is not None) else None, 'refs', new.loc(), 'a reference to N is created as %s' % show(r))
    init = prog.find_method(prog.cls('PDFObject'), '__init__')
    eng = Engine(prog)
    s, i, v = (('sym', a) for a in init.args[:3])
    for p in eng.analyse(init):
        if p.raised:
            continue
        t = p.attr(s, 'id')
        rep.check(True if t == i else (False if t is None or is_c(t) else None), 'refs', init.loc(), 'an object stores %s as its id' % (show(t) if t else None))
    # no hand-written references
    n = 0
    for fi in prog.all_functions():
        if fi is g:
            continue
        for x in ast.walk(fi.node):
            if isinstance(x, ast.Constant) and isinstance(x.value, (str, bytes)):
                n += 1
                v = x.value if isinstance(x.value, str) else x.value.decode('latin')
                if v.endswith(' 0 R') and fi.node.body and not (
                        isinstance(fi.node.body[0], ast.Expr) and fi.node.body[0].value is x):
                    from ..access import private_closure as pc
                    if fi not in pc(prog, [g]):
                        rep.bad('refs', fi.loc(x), 'a reference is written by hand: %r' % v)
    rep.count('text constants scanned for hand-written references', n)


def root(prog, rep):
    n = 0
    bad = False
    for name, opq in (('PDF.__init__', ()), ('PDF.output', ('PDF._build_pages_tree', 'PDF._build_dests', 'PDF._build_outlines', 'PDF._build_pages', 'PDFBase.output'))):
        if not prog.has_func(name):
            continue
        fi = prog.func(name)
        opaque = set(opq)
        if name == 'PDF.output':
            from ..flow import callees
            opaque |= {f.qual for f in callees(prog, fi)}
        else:
            opaque |= {'PDF.setup_page', 'PDFFonts.__init__', 'parse_margin', 'get_page_size'}
        eng = Engine(prog, opaque=opaque)
        s = ('sym', fi.args[0])
        for p in eng.analyse(fi):
            if p.raised:
                continue
            for ev, st in all_events(p.trace):
                v = None
                if ev.kind == 'setitem' and ev.a[1] == C('Root'):
                    v = ev.a[2]
                elif ev.kind == 'mut' and ev.a[1] == 'update' and ev.a[2] and ev.a[2][0][0] == 'dict':
                    v = eng.dict_get(ev.a[2][0], C('Root'), None, p.state)
                if v is not None:
                    n += 1
                    rt = p.attr(s, 'root') or ('attr', s, 'root', 0)
                    o = v[1] if v[0] == 'attr' and v[2] == 'id' else None
                    ok = None
                    if rt[0] == 'obj' and p.attr(rt, 'id') == v:
                        ok = True
                    elif o is not None:
                        ok = o == rt
                    elif v == rt:
                        ok = False
                    elif rt[0] == 'obj':
                        ok = False if refnum(prog, eng, p, v) is not None or is_c(v) else None
                    rep.check(ok, 'root', ev.loc, 'trailer Root is %s' % show(v))
                    if rt[0] == 'obj':
                        val = p.attr(rt, 'value')
                        ty = eng.dict_get(val, C('Type'), None, p.state) if val is not None and val[0] == 'dict' else None
                        rep.check(None if ty is None or not is_c(ty) else ty[2] in (b'/Catalog',), 'root', fi.loc(),
                                  'the root object has Type %s' % (show(ty) if ty else None))
        rep.functions |= eng.analysed
    if n == 0:
        anyroot = any(isinstance(x, ast.Constant) and x.value == 'Root' for f in prog.all_functions() for x in ast.walk(f.node))
        rep.check(None if anyroot else False, 'root', 'package', 'the trailer never gets a Root')
    # the catalog object is not exchanged later
    init = prog.func('PDF.__init__')
    own = private_closure(prog, [init])
    for fi, node, bt, attr, how in all_mutations(prog):
        if bt == 'PDF' and attr == 'root' and how in ('assign', 'augassign', 'del'):
            rep.check(fi in own or None, 'root', fi.loc(node), 'PDF.root is replaced')
