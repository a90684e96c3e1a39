"""C14: building a document changes nothing that is shared by every document of the process."""
import ast
from .isolation import solve

TECHNIQUE = ('whole-program points-to and mutation analysis (call-string sensitive may-alias fixpoint '
             'over the syntax tree) with module tables, class attributes, default arguments and cached '
             'return values as shared roots; effect query for process-wide settings')
NOTE = ('Every in-place change in every function reachable from the public API is resolved to the '
        'abstract objects it can change. Sets are tracked as shared roots but not as caller data.')

# calls that change a setting of the whole process
PROCESS = {
    'os': {'chdir', 'putenv', 'unsetenv', 'umask', 'nice', 'setuid', 'setgid', 'fchdir'},
    'locale': {'setlocale'},
    'random': {'seed', 'setstate'},
    'sys': {'setrecursionlimit', 'setswitchinterval', 'settrace', 'setprofile'},
    'warnings': {'simplefilter', 'filterwarnings', 'resetwarnings'},
    'decimal': {'setcontext'},
    'socket': {'setdefaulttimeout'},
    'time': {'tzset'},
    'gc': {'disable', 'set_threshold', 'freeze'},
    'codecs': {'register', 'register_error'},
}
PROC_ATTR = {('os', 'environ'), ('sys', 'path'), ('sys', 'modules'), ('sys', 'stdout'),
             ('sys', 'stderr'), ('sys', 'excepthook')}


def run(prog, rep):
    rep.rule('shared', 'no statement reachable from the public API changes in place a module-level '
             'table, a class attribute, a default argument, a cached value or anything reachable from one')
    rep.rule('process', 'no statement reachable from the public API changes a process-wide setting')
    rep.section('shared', shared, prog, rep)


def shared(prog, rep):
    p = solve(prog, rep, 2 if rep.tier == 'quick' else 3)
    bad = [m for m in p.muts.values() if m.shared]
    roots = len(p.shared)
    rep.count('shared abstract objects', roots)
    for m in bad:
        rep.bad('shared', m.fi.loc(m.node),
                '%s in %s changes %s, which every document of the process shares' % (m.what, m.fi.qual, m.label),
                key='%s:%s:%s' % (m.fi.qual, m.what, m.label))
    if not bad:
        rep.ok('shared', '%d functions' % len(p.fis))
    n = 0
    for q, fi in p.fis.items():
        imp = fi.module.imports
        for node in ast.walk(fi.node):
            if isinstance(node, ast.Call):
                d = dotted(node.func, imp)
                if d is None:
                    continue
                n += 1
                if len(d) == 2 and d[1] in PROCESS.get(d[0], ()):
                    rep.bad('process', fi.loc(node), '%s.%s called while building a document changes a '
                            'setting of the whole process' % d, key='%s:%s' % (q, d))
                elif len(d) >= 3 and d[:2] in PROC_ATTR and d[2] in (
                        'append', 'insert', 'update', 'pop', 'setdefault', 'clear', 'extend', 'remove'):
                    rep.bad('process', fi.loc(node), '%s changed while building a document' % '.'.join(d[:2]),
                            key='%s:%s' % (q, d[:2]))
            elif isinstance(node, (ast.Assign, ast.AugAssign, ast.Delete)):
                ts = node.targets if isinstance(node, (ast.Assign, ast.Delete)) else [node.target]
                for t in ts:
                    if isinstance(t, ast.Subscript):
                        t = t.value
                    if isinstance(t, ast.Attribute):
                        d = dotted(t, imp)
                        if d is not None and d[:2] in PROC_ATTR:
                            rep.bad('process', fi.loc(node), '%s changed while building a document'
                                    % '.'.join(d[:2]), key='%s:%s' % (q, d[:2]))
    rep.count('calls into other modules examined', n)
    rep.ok('process', '%d calls' % n)


def dotted(e, imports):
    """('os', 'environ', 'update') for an expression rooted at an imported module"""
    names = []
    while isinstance(e, ast.Attribute):
        names.append(e.attr)
        e = e.value
    if not isinstance(e, ast.Name) or e.id not in imports:
        return None
    src, attr, level = imports[e.id]
    if level:
        return None
    return tuple(src.split('.')) + ((attr,) if attr else ()) + tuple(reversed(names))
