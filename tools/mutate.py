#!/usr/bin/env python3
"""
Systematic small mutations of /repo/src/footprints, to look for blind spots of the checks (development only).

    mutate.py [--files a.py,b.py] [--sample N] [--seed S] [--jobs J] [--cases N] OUT.jsonl

Each mutant lives in a scratch copy of /repo; the ones the stable tests kill are dropped, the others are shown to the
checks (single worker, few cases, the likely properties first) until one reports a violation.
"""

import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ORDER = {
    'config.py': '21 08 05 03 15', 'priorities.py': '12 04 20 18 05', 'util.py': '13 14 17 08 11', 'stdtypes.py': '17 11 13 16',
    'reporting.py': '16 15 21 05', 'doc.py': '20', 'proxies.py': '21 18 10', 'observers.py': '10 11 18', 'access.py': '09 01 11',
    'collectors.py': '05 18 10 02 04 08 20 21 22', '__init__.py': '06 02 07 03 11 10 15 19 01 09 08 22 23', 'dump.py': '16 20 17',
}
ALL = ['%02d' % i for i in range(1, 24)]
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Is: 'is not', ast.IsNot: 'is',
       ast.In: 'not in', ast.NotIn: 'in'}
UNWRAP = {'dict', 'list', 'tuple', 'set', 'sorted', 'str', 'reversed', 'mktuple', 'frozenset', 'deepcopy', 'int'}
UNMETH = {'copy', 'lower', 'upper', 'strip', 'rstrip', 'lstrip', 'deepcopy', 'mktuple'}


def mutants(path):
    """Yield (line, description, new source)."""
    src = open(path).read()
    lines = src.split('\n')
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode()) + 1)
    raw = src.encode()
    tree = ast.parse(src)
    seen = set()

    def repl(node, text, what):
        line = lines[node.lineno - 1]
        if 'logger.' in line or '__all__' in line or line.startswith('assert ') or 'print(' in line:
            return None
        a = offs[node.lineno - 1] + node.col_offset
        b = offs[node.end_lineno - 1] + node.end_col_offset
        new = (raw[:a] + text.encode() + raw[b:]).decode()
        if new in seen or new == src:
            return None
        try:
            if ast.dump(ast.parse(new)) == ast.dump(tree):
                return None
        except SyntaxError:
            return None
        seen.add(new)
        return (node.lineno, what + ': ' + (raw[a:b].decode().split('\n')[0])[:60] + '  ->  ' + text.split('\n')[0][:60], new)

    un = ast.unparse
    for node in ast.walk(tree):
        out = list()
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            out.append(('cmp', '({} {} {})'.format(un(node.left), CMP[type(node.ops[0])], un(node.comparators[0]))))
            if type(node.ops[0]) in (ast.Is, ast.IsNot):
                if isinstance(node.comparators[0], ast.Constant) and node.comparators[0].value is None:
                    out.append(('none->truth', '(not {})'.format(un(node.left)) if type(node.ops[0]) is ast.Is else '({})'.format(un(node.left))))
            if type(node.ops[0]) is ast.Eq:
                out.append(('eq->is', '({} is {})'.format(un(node.left), un(node.comparators[0]))))
        elif isinstance(node, ast.BoolOp):
            op = ' and ' if isinstance(node.op, ast.And) else ' or '
            rev = ' or ' if isinstance(node.op, ast.And) else ' and '
            out.append(('boolop', '(' + rev.join('(' + un(v) + ')' for v in node.values) + ')'))
            for i in range(len(node.values)):
                out.append(('drop term', '(' + op.join('(' + un(v) + ')' for j, v in enumerate(node.values) if j != i) + ')'))
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            out.append(('not', '(' + un(node.operand) + ')'))
        elif isinstance(node, (ast.If, ast.IfExp, ast.While)):
            m = repl(node.test, '(not ({}))'.format(un(node.test)), 'negate')
            if m:
                yield m
            if isinstance(node, ast.If):
                for t in ('True', 'False'):
                    m = repl(node.test, t, 'if')
                    if m:
                        yield m
        elif isinstance(node, ast.Constant):
            if node.value is True or node.value is False:
                out.append(('bool', str(not node.value)))
            elif type(node.value) is int:
                out.append(('int+1', str(node.value + 1)))
                out.append(('int-1', '({})'.format(node.value - 1)))
        elif isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub)):
            out.append(('left', '({})'.format(un(node.left))))
            out.append(('right', '({})'.format(un(node.right))))
        elif isinstance(node, ast.BinOp) and isinstance(node.op, (ast.BitAnd, ast.BitOr)):
            out.append(('left', '({})'.format(un(node.left))))
            out.append(('right', '({})'.format(un(node.right))))
        elif isinstance(node, ast.Call):
            f = node.func
            if isinstance(f, ast.Name) and f.id in UNWRAP and len(node.args) == 1:
                out.append(('unwrap', '({})'.format(un(node.args[0]))))
            if isinstance(f, ast.Name) and f.id in ('any', 'all'):
                out.append(('any/all', un(node).replace(f.id, 'any' if f.id == 'all' else 'all', 1)))
            if isinstance(f, ast.Name) and f.id in ('min', 'max'):
                out.append(('min/max', un(node).replace(f.id, 'min' if f.id == 'max' else 'max', 1)))
            if isinstance(f, ast.Name) and f.id == 'isinstance':
                out.append(('isinstance->type', '(type({}) is {})'.format(un(node.args[0]), un(node.args[1]))))
            if isinstance(f, ast.Attribute) and f.attr in UNMETH:
                out.append(('unmethod', '({})'.format(un(node.args[0]) if node.args else un(f.value))))
            if isinstance(f, ast.Attribute) and f.attr == 'get' and len(node.args) == 2:
                out.append(('get', '{}.get({})'.format(un(f.value), un(node.args[0]))))
            if isinstance(f, ast.Attribute) and f.attr == 'setdefault' and len(node.args) == 2:
                out.append(('setdefault', '{}.update({{{}: {}}})'.format(un(f.value), un(node.args[0]), un(node.args[1]))))
            if isinstance(f, ast.Attribute) and f.attr in ('update', 'extend', 'intersection', 'union', 'difference', 'append'):
                pass
            for k in node.keywords:
                if k.arg:
                    out.append(('drop keyword', '{}({})'.format(un(f), ', '.join(
                        [un(a) for a in node.args] + [(kk.arg + '=' if kk.arg else '**') + un(kk.value)
                                                      for kk in node.keywords if kk is not k]))))
        elif isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise)):
            if not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)) and 'logger' not in un(node):
                out.append(('delete', 'pass'))
        elif isinstance(node, ast.Return) and node.value is not None:
            out.append(('return', 'return None'))
        elif isinstance(node, ast.Break):
            out.append(('break', 'pass'))
            out.append(('break', 'continue'))
        elif isinstance(node, ast.Continue):
            out.append(('continue', 'pass'))
            out.append(('continue', 'break'))
        elif isinstance(node, (ast.Tuple, ast.List, ast.Set)) and len(node.elts) > 1 and isinstance(getattr(node, 'ctx', ast.Load()), ast.Load):
            for i in range(len(node.elts)):
                k = ast.parse(un(node), mode='eval').body
                del k.elts[i]
                out.append(('drop element', un(k)))
        elif isinstance(node, ast.For):
            m = repl(node.iter, 'list({})[1:]'.format(un(node.iter)), 'skip first')
            if m:
                yield m
            m = repl(node.iter, 'list({})[:-1]'.format(un(node.iter)), 'skip last')
            if m:
                yield m
        elif isinstance(node, (ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
            for g in node.generators:
                for i in g.ifs:
                    m = repl(i, 'True', 'filter')
                    if m:
                        yield m
        elif isinstance(node, ast.ExceptHandler) and isinstance(node.type, ast.Tuple):
            for e in node.type.elts:
                m = repl(node.type, un(e) if len(node.type.elts) == 2 else '({},)'.format(un(e)), 'handler')
                if m:
                    yield m
        for what, text in out:
            m = repl(node, text, what)
            if m:
                yield m


WRAPPERS = """
def _mut_owner(a):
    import weakref
    if not a:
        return None, lambda: True
    try:
        r = weakref.ref(a[0])
        return id(a[0]), lambda x=a[0].__class__, r=r: r() is not None
    except TypeError:
        return repr(a[0])[:300], lambda: True


def _mut_show(x):
    try:
        return repr(x)
    except Exception:
        return id(x)


def _mut_again(r):
    import types
    if isinstance(r, types.GeneratorType):
        return list(r), True
    return r, False


def _mut_memo(f):
    # the first answer for the same object and arguments
    import functools
    cache = dict()

    @functools.wraps(f)
    def w(*a, **k):
        who, alive = _mut_owner(a)
        key = (who, _mut_show((a[1:], sorted(k.items()))))
        if key not in cache or not cache[key][0]():
            cache[key] = (alive,) + _mut_again(f(*a, **k))
        return iter(cache[key][1]) if cache[key][2] else cache[key][1]
    return w


def _mut_memocls(f):
    # the first answer for an object of the same class and the same arguments
    import functools
    cache = dict()

    @functools.wraps(f)
    def w(*a, **k):
        key = (type(a[0]) if a else None, _mut_show((a[1:], sorted(k.items()))))
        if key not in cache:
            cache[key] = _mut_again(f(*a, **k))
        return iter(cache[key][0]) if cache[key][1] else cache[key][0]
    return w


def _mut_once(f):
    # the first answer for the same object, whatever the arguments
    import functools
    cache = dict()

    @functools.wraps(f)
    def w(*a, **k):
        who, alive = _mut_owner(a)
        if who not in cache or not cache[who][0]():
            cache[who] = (alive,) + _mut_again(f(*a, **k))
        return iter(cache[who][1]) if cache[who][2] else cache[who][1]
    return w


def _mut_swallow(f):
    import functools

    @functools.wraps(f)
    def w(*a, **k):
        try:
            return f(*a, **k)
        except Exception:
            return None
    return w


def _mut_leak(f):
    import functools
    kept = list()

    @functools.wraps(f)
    def w(*a, **k):
        r = f(*a, **k)
        kept.append((a, k, r))
        return r
    return w


def _mut_damage(f):
    # dictionaries, lists and sets given as arguments lose an item
    import functools

    @functools.wraps(f)
    def w(*a, **k):
        r = f(*a, **k)
        for x in a[1:] + tuple(k.values()):
            if type(x) in (list, dict, set) and x:
                x.popitem() if type(x) is dict else x.pop()
        return r
    return w


def _mut_late(f):
    # the answer of the previous call for this object
    import functools
    cache = dict()

    @functools.wraps(f)
    def w(*a, **k):
        who, alive = _mut_owner(a)
        r, g = _mut_again(f(*a, **k))
        prev = cache.get(who)
        cache[who] = (alive, r)
        out = prev[1] if prev and prev[0]() else r
        return iter(out) if g else out
    return w


def _mut_falsy(f):
    # false answers become None, true ones True
    import functools

    @functools.wraps(f)
    def w(*a, **k):
        r = f(*a, **k)
        return (r or None) if type(r) is not bool else r
    return w


def _mut_copy(f):
    # containers are answered as copies
    import functools

    @functools.wraps(f)
    def w(*a, **k):
        r = f(*a, **k)
        return type(r)(r) if type(r) in (dict, list, set) else r
    return w


def _mut_few(f):
    # containers of more than four items lose one
    import functools

    @functools.wraps(f)
    def w(*a, **k):
        r = f(*a, **k)
        return type(r)(list(r.items())[:-1] if isinstance(r, dict) else list(r)[:-1]) \
            if type(r) in (dict, list, set, tuple) and len(r) > 4 else r
    return w

"""
FAMILIES = ('memo', 'memocls', 'once', 'swallow', 'leak', 'damage', 'late', 'falsy', 'copy', 'few')


def wrapped(path, families):
    """Yield (line, description, new source): whole functions wrapped."""
    src = open(path).read()
    lines = src.split('\n')
    tree = ast.parse(src)
    after = max([n.end_lineno for n in tree.body if isinstance(n, (ast.Import, ast.ImportFrom))] or [0])
    for node in ast.walk(tree):
        if isinstance(node, ast.FunctionDef):
            at = node.lineno - 1
            for fam in families:
                new = list(lines)
                new.insert(at, ' ' * node.col_offset + '@_mut_' + fam)
                if at >= after:
                    new[after:after] = WRAPPERS.split('\n')
                    yield node.lineno, 'wrap {}: {}'.format(fam, node.name), '\n'.join(new)


def env(src, **kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LANG='C.UTF-8', TZ='UTC', PYTHONPATH=src, **kw)
    return e


def run(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True, **kw)
    try:
        return p.wait(timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return 'timeout'


def tests_pass(copy):
    x = copy + '/junit.xml'
    rc = run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-o', 'junit_family=xunit2', '--junitxml=' + x], 60,
             cwd=copy, env=env(copy + '/src'))
    if rc == 'timeout' or not os.path.exists(x):
        return False
    ok = {t.get('classname') + '::' + t.get('name') for t in ET.parse(x).getroot().iter('testcase') if not list(t)}
    os.remove(x)
    return not STABLE - ok


def first_alarm(copy, fname, cases, primary=False):
    order = ORDER.get(fname, '').split()
    if not primary or not order:
        order += [p for p in ALL if p not in order]
    for p in order:
        out, wd = copy + '/out.json', copy + '/wd'
        shutil.rmtree(wd, ignore_errors=True)
        os.makedirs(wd)
        if os.path.exists(out):
            os.remove(out)
        code = ('from fpmon import core; core.MAX_VIOLATIONS = 1; core.WATCHDOG = 30; core.STEP_BUDGET = 1000000; core.worker({!r}, "quick", 3, 0, 1, {!r}, 150, {!r})'
                .format('P' + p, cases, out))
        rc = run([PY, '-c', code], 300, cwd=wd, env=env(VERIF, FPMON_REPO_SRC=copy + '/src'))
        if rc != 0:
            return 'P' + p + '!', str(rc)
        r = json.load(open(out))
        if r['violations']:
            return 'P' + p, r['violations'][0]['msg'][:200]
        if r['inconclusive']:
            return 'P' + p + '!', r['inconclusive'][0]
    return None, None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--files', default='')
    ap.add_argument('--sample', type=int, default=0)
    ap.add_argument('--seed', type=int, default=0)
    ap.add_argument('--jobs', type=int, default=7)
    ap.add_argument('--cases', type=int, default=400)
    ap.add_argument('--only', default='', help='file:line')
    ap.add_argument('--missed-in', default='', help='only the mutants missed according to this former output')
    ap.add_argument('--wrap', default='', help='wrap whole functions instead (families, or all)')
    ap.add_argument('--primary', action='store_true', help='only the properties listed first for the file')
    a = ap.parse_args()
    base = '/repo/src/footprints/'
    todo = list()
    for f in sorted(os.listdir(base)):
        if f.endswith('.py') and (not a.files or f in a.files.split(',')):
            fams = FAMILIES if a.wrap == 'all' else a.wrap.split(',')
            for m in (wrapped(base + f, fams) if a.wrap else mutants(base + f)):
                if not a.only or a.only == '{}:{}'.format(f, m[0]):
                    todo.append((f,) + m)
    if a.missed_in:
        former = [json.loads(x) for x in open(a.missed_in)]
        former = [(d['file'], d['what'], d['line']) for d in former if d['res'] is None]
        todo = [t for t in todo if any((t[0], t[2]) == x[:2] and abs(t[1] - x[2]) < 45 for x in former)]
    done = set()
    if os.path.exists(a.out):
        for line in open(a.out):
            d = json.loads(line)
            done.add((d['file'], d['line'], d['what']))
    random.Random(a.seed).shuffle(todo)
    if a.sample:
        todo = todo[:a.sample]
    todo = [t for t in todo if (t[0], t[1], t[2]) not in done]
    print(len(todo), 'mutants', flush=True)
    lock = threading.Lock()
    total = dict(killed=0, caught=0, missed=0)

    def loop():
        copy = tempfile.mkdtemp(prefix='mut-')
        os.rmdir(copy)
        shutil.copytree('/repo', copy, symlinks=True)
        try:
            while True:
                with lock:
                    if not todo:
                        return
                    f, line, what, new = todo.pop()
                path = copy + '/src/footprints/' + f
                orig = open(path).read()
                open(path, 'w').write(new)
                try:
                    if not tests_pass(copy):
                        res, msg = 'killed', None
                    else:
                        res, msg = first_alarm(copy, f, a.cases, a.primary)
                finally:
                    open(path, 'w').write(orig)
                with lock:
                    total['killed' if res == 'killed' else 'caught' if res else 'missed'] += 1
                    with open(a.out, 'a') as o:
                        o.write(json.dumps(dict(file=f, line=line, what=what, res=res, msg=msg)) + '\n')
                    if res is None:
                        print('MISSED {}:{} {}'.format(f, line, what), flush=True)
        finally:
            shutil.rmtree(copy, ignore_errors=True)

    ts = [threading.Thread(target=loop) for _ in range(a.jobs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    print(total)


if __name__ == '__main__':
    sys.exit(main())
