"""P14: glob expansions, in a scratch directory, against a structured pattern."""

import os
import re
import shutil
import tempfile

from ..lib import fp, snapshot, util

# (expression, samples that match, samples that do not)
EXPRS = [
    (r'\d+', ['1', '02', '345'], ['a', '', '1a']),
    (r'\w+', ['abc', 'x_1', '7'], ['', 'a-b']),
    (r'[ab]+', ['a', 'abba'], ['c', '']),
    (r'a|bc', ['a', 'bc'], ['b', 'abc']),
    (r'.*', ['', 'any', 'a.b', 'x,y', 'a b', '[k]', 'range(2)'], []),
    (r'\d{2}', ['01', '99'], ['1', '123']),
    (r'[a-z]{2}', ['aa', 'zz'], ['abc', 'A']),
    (r'x{2}y{3}', ['xxyyy'], ['xy', 'xxyy']),
    (r'(?:ab){2}', ['abab'], ['ab', 'ababab']),
    (r'(p|q)r?', ['p', 'qr'], ['r', 'pq']),
    (r'\{\d\}', ['{1}', '{7}'], ['1', '{}']),
    (r'v\.\d', ['v.1'], ['vx1']),
    (r'[^_]+', ['foo', 'a-b', 'a+b', '$'], ['', 'a_b']),
    (r'\S+?', ['s', 'st'], ['']),
    (r'[[:]+', ['[', '[:'], ['a']),
    (r'A?', ['', 'A'], ['AA', 'a']),
    (r'\\+|\[glob:i\]', ['\\', '[glob:i]'], ['x']),
    (r'[^{{}}]{2}', ['ab', '~a'], ['a', 'a{', 'abc']),
    (r'[{{x}}]{2}', ['x{', '{x', '}}'], ['a', '', 'x']),
    (r'(?:[{{{}}}]-){2}', ['{-}-', '{-{-'], ['{-', '--']),
    (r'\{\{\w\}\}', ['{{a}}'], ['{a}', '{{}}']),
    (r'(?i:ab)', ['ab', 'AB', 'aB'], ['b']),
    (r'\w(?=\W|\Z)', ['w', '1'], ['-']),
]
LITERALS = ['f', 'file_', 'test.', '_', '-', 'a+b', '(x)', '$', '^', 'x.y', '|', 'a b', '[1]', '[ab]', 'no', '{k}', 'é', '~', '#', '!', '{', 'glob', "'", '@', '%']
NEAR = {'.': 'X', '+': 'b', '(x)': 'x', '$': '', '^': '', '|': 'f', '[1]': '1', '[ab]': 'a', 'test.': 'testX', 'x.y': 'xzy', 'a+b': 'aab', 'f': 'F',
        '?': '', '{k}': 'k'}
BAD = [r'(', r'[a', r'*a', r'a{2}{3', r'(?P<x', r'a\\', r'?', r'(?<=a+)b']


def make_pattern(rng):
    """A list of pieces: ('lit', text), ('star',), ('any',), ('glob', name, (expression...))."""
    pieces = list()
    names = rng.sample(['i', 'n', 'date', 'x_1', 'K', 'glob', 'année', '_2', 'n__'], rng.choice([1, 1, 2, 2, 3]))
    for n in names:
        for _ in range(rng.choice([0, 1, 1, 2])):
            pieces.append(rng.choice([('lit', rng.choice(LITERALS)), ('lit', rng.choice(LITERALS)), ('lit', rng.choice(LITERALS)), ('star',), ('any',)]))
        if not pieces:
            pieces.append(('lit', rng.choice(['f', 'file_'])))
        pieces.append(('glob', n, rng.choice(EXPRS)))
    for _ in range(rng.choice([0, 1, 1, 2])):
        pieces.append(rng.choice([('lit', rng.choice(LITERALS)), ('lit', rng.choice(LITERALS)), ('star',)]))
    if pieces[0][0] != 'lit':
        pieces.insert(0, ('lit', 'f'))
    return pieces, names


def text_of(pieces):
    out = ''
    for p in pieces:
        out += dict(lit=lambda: p[1], star=lambda: '*', any=lambda: '?',
                    glob=lambda: '{glob:' + p[1] + ':' + p[2][0] + '}')[p[0]]()
    return out


def regex_of(pieces):
    out = ''
    for p in pieces:
        if p[0] == 'lit':
            out += re.escape(p[1])
        elif p[0] == 'star':
            out += '[^/\0]*'
        elif p[0] == 'any':
            out += '[^/\0]'
        else:
            out += '(?P<' + p[1] + '>' + p[2][0] + ')'
    return re.compile(out)


def sample(rng, pieces, near=False):
    out = ''
    wrong = rng.randrange(len(pieces)) if near else None
    for k, p in enumerate(pieces):
        if p[0] == 'lit':
            out += NEAR.get(p[1], p[1][:-1] + 'Z') if k == wrong else p[1]
        elif p[0] == 'star':
            out += rng.choice(['', 'zz', 'a1', '*', '-.-', 'q\nr'])
        elif p[0] == 'any':
            out += '' if k == wrong else rng.choice(['a', '?', '.', '7', '\n'])
        else:
            out += rng.choice(p[2][2]) if k == wrong and p[2][2] else rng.choice(p[2][1])
    if near and rng.random() < 0.3:
        out = rng.choice([out + 'tail', out + '\n', 'head' + out, out.upper(), out[:-1], out + rng.choice('~ -_.0aZ$#}])*'),
                          out + rng.choice('~ -_.0aZ$#}])*'), rng.choice('~ -_0aZ$#{[(*') + out, out[1:]])
    return out


def create(root, name):
    if not name or name in ('.', '..') or '/' in name or '\0' in name:
        return
    path = os.path.join(root, name)
    if not os.path.lexists(path):
        try:
            with open(path, 'w'):
                pass
        except OSError:
            pass


def run_case(rng, mon):
    scratch = tempfile.mkdtemp(prefix='glob', dir=os.getcwd())
    cwd = os.getcwd()
    try:
        os.chdir(scratch)
        if rng.random() < 0.12:
            directories(rng, mon, scratch)
        else:
            drive(rng, mon, scratch)
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)


def directories(rng, mon, scratch):
    """Globs in the names of directories as well."""
    pieces, names = make_pattern(rng)
    dexpr = rng.choice([e for e in EXPRS if e[0] != r'\w(?=\W|\Z)'])
    dpieces = rng.choice([[('lit', 'd')], [('lit', 'd.')], [('lit', 'd'), ('any',)], [('lit', '[d]')]]) + rng.choice(
        [[('glob', 'dir', dexpr)], [('glob', 'dir', dexpr), ('lit', '-x')], [('star',), ('glob', 'dir', dexpr)], [('star',)]])
    if rng.random() < 0.2:
        dpieces = [('star',), ('star',)]
    for _ in range(rng.randint(1, 4)):
        d = sample(rng, dpieces, near=rng.random() < 0.3)
        if not d or '/' in d or '\0' in d or d.startswith('.'):
            continue
        os.makedirs(os.path.join(scratch, d), exist_ok=True)
        for _ in range(rng.randint(0, 4)):
            create(os.path.join(scratch, d), sample(rng, pieces, near=rng.random() < 0.3))
        if rng.random() < 0.4:
            # deeper: never reached
            sub = os.path.join(scratch, d, rng.choice(['sub', 'd', '7']))
            if not os.path.lexists(sub):
                os.mkdir(sub)
            if os.path.isdir(sub):
                create(sub, sample(rng, pieces))
    for _ in range(rng.choice([0, 0, 1])):
        create(scratch, sample(rng, pieces))
    rx = re.compile(regex_of(dpieces).pattern + '/' + regex_of(pieces).pattern)
    expected = list()
    for d in [d for d in os.listdir(scratch) if os.path.isdir(os.path.join(scratch, d)) and not d.startswith('.')]:
        for n in [n for n in os.listdir(os.path.join(scratch, d)) if not n.startswith('.') or text_of(pieces).startswith('.')]:
            m = rx.fullmatch(d + '/' + n)
            if m:
                expected.append((d + '/' + n, m.groupdict()))
    expected.sort(key=lambda x: x[0])
    desc = dict(fname=text_of(dpieces) + '/' + text_of(pieces), text='[glob:dir]+' + '+'.join('[glob:' + n + ']' for n in names))
    if rng.random() < 0.5:
        desc = dict(reversed(list(desc.items())))
    before = snapshot(desc)
    mon.note('directories', desc, sorted(os.listdir(scratch)))
    got = mon.ok('expand', util.expand, desc)
    mon.check(before == snapshot(desc), 'the description has been modified')
    mon.same('files of several directories for {!r}'.format(desc['fname']), [d['fname'] for d in got], [f for f, _ in expected])
    for d, (f, parts) in zip(got, expected):
        mon.same('captured parts of {!r}'.format(f), d['text'],
                 re.sub(r'\[glob:(\w+)\]', lambda m: parts.get(m.group(1), m.group(0)), desc['text']))
        mon.ev('descriptions-observed')
    mon.ev('directories-globbed')
    mon.sig(desc['fname'], sorted(os.listdir(scratch)))
    if len(got) > 1:
        mon.nontrivial()


def drive(rng, mon, scratch):
    pieces, names = make_pattern(rng)
    if rng.random() < 0.1:
        pieces = [('lit', '.')] + pieces
    subdir = rng.choice(['', '', '', 'd1/', 'd.x/', 'a+b/', 'd[1]/', 'd1/d2/'])
    absolute = rng.random() < 0.15
    prefix = (os.path.join(scratch, '') if absolute else '') + subdir
    for d in {'d1', 'dX', 'd.x', 'dyx', 'a+b', 'aab', 'd[1]', 'd1/d2'} if subdir else ():
        os.makedirs(os.path.join(scratch, d), exist_ok=True)
    roots = [os.path.join(scratch, subdir)]
    if subdir:
        roots += [os.path.join(scratch, rng.choice(['d1', 'dX', 'dyx', 'aab']))]
    for root in roots:
        for _ in range(rng.choice([0, 1, 2, 3, 5, 8])):
            create(root, sample(rng, pieces))
        for _ in range(rng.choice([0, 1, 2, 4])):
            create(root, sample(rng, pieces, near=True))
        for n in ('unrelated', 'f'):
            if rng.random() < 0.3:
                create(root, n)
    pattern = prefix + text_of(pieces)
    regex = regex_of(pieces)
    desc = dict(fname=pattern)
    refs = dict()
    for k in ('id', 'nn', 'label', 'other'):
        r = rng.random()
        if r < 0.35:
            desc[k] = '[glob:' + rng.choice(names) + ']'
        elif r < 0.6:
            desc[k] = rng.choice(['a-', '', '[kind]']) + ''.join('[glob:' + rng.choice(names) + ']' + rng.choice(['', '-', '.', '\\1']) for _ in range(rng.choice([1, 2, 3])))
        elif r < 0.64:
            # a long text
            desc[k] = ' '.join(rng.choice(['/a/long/directory', 'word', '[kind]', '[glob:' + rng.choice(names) + ']', 'some\nlines', '--'])
                               for _ in range(rng.randint(5, 40)))
        elif r < 0.7:
            desc[k] = '[glob:unknown]-[glob:' + rng.choice(names) + ']'
        elif r < 0.8:
            desc[k] = rng.choice([5, None, 'plain', '[kind]', '[glob]', fp.FPList([1]), '[glob:' + names[0], 'glob:' + names[0] + ']'])
        if k in desc:
            refs[k] = desc[k]
    multi = rng.random() < 0.25
    if multi:
        desc['multi'] = [1, 2]
    second = None
    if rng.random() < 0.15:
        # two values with globs
        second = rng.choice(['f{glob:second:.}', '{glob:second:d[12]}', 'second_{glob:second:[xy]}'])
        create(scratch, 'fz')
        create(scratch, 'second_x')
        create(scratch, 'second_y')
        desc['more'] = second
        desc['last'] = '<[glob:second]>'
    items = list(desc.items())
    rng.shuffle(items)
    desc = dict(items)
    mon.note('pattern', pattern, 'description', desc)

    # malformed ones
    r = rng.random()
    if r < 0.12:
        bad = dict(desc)
        how = rng.choice(['duplicate', 'expression', 'unbalanced', 'name', 'group'])
        g = [p for p in pieces if p[0] == 'glob'][0]
        lit = prefix + 'f'
        if how == 'duplicate':
            bad['fname'] = lit + '{glob:' + g[1] + ':' + g[2][0] + '}_{glob:' + g[1] + r':\w}'
        elif how == 'expression':
            bad['fname'] = lit + '{glob:' + g[1] + ':' + rng.choice(BAD) + '}' + rng.choice(['', 'tail'])
        elif how == 'unbalanced':
            bad['fname'] = rng.choice([lit + '{glob:i:a{2}', lit + r'{glob:i:\w+', lit + '{glob:i:a}{glob:n:{', lit + r'{glob:i:\}'])
        elif how == 'name':
            bad['fname'] = lit + r'{glob:1a:\w}'
        else:
            bad['fname'] = lit + r'{glob:i:(?P<i>a)}'
        mon.note('malformed', how, bad['fname'])
        before = snapshot(bad)
        if multi:
            bad.pop('multi')
        bad.pop('more', None)
        before = snapshot(bad)
        mon.refused('expand-' + how, ValueError, util.expand, bad)
        mon.check(before == snapshot(bad), 'the description has been modified')
        mon.sig(how, bad['fname'])
        mon.nontrivial()
        return

    def existing(root):
        """Regular files of this directory, hidden ones excluded (unless the initial dot is asked for)."""
        dotted = text_of(pieces).startswith('.')
        return [n for n in os.listdir(root) if (dotted or not n.startswith('.')) and os.path.isfile(os.path.join(root, n))]

    def matching():
        found = list()
        for n in existing(os.path.join(scratch, subdir)):
            m = regex.fullmatch(n)
            if m:
                found.append((prefix + n, m.groupdict()))
        return sorted(found, key=lambda x: x[0])

    found = matching()
    mon.ev('files-present', len(os.listdir(os.path.join(scratch, subdir))))
    mon.ev('files-matched', len(found))
    if len(found) > 1:
        mon.nontrivial()
    mon.sig(pattern, sorted(os.listdir(os.path.join(scratch, subdir))), sorted(map(repr, refs.items())))
    if second is None and not multi and rng.random() < 0.2:
        # Other files are there the next time
        mon.ok('expand', util.expand, desc)
        place = os.path.join(scratch, subdir)
        for n in existing(place):
            if rng.random() < 0.3:
                os.unlink(os.path.join(place, n))
        for _ in range(rng.choice([0, 1, 3])):
            create(place, sample(rng, pieces, near=rng.random() < 0.3))
        found = matching()
        mon.ev('files-changed')
    before, order = snapshot(desc), list(desc)
    got = mon.ok('expand', util.expand, desc)
    mon.check(before == snapshot(desc) and order == list(desc), 'the description has been modified')
    seconds = ['']
    if second:
        rx = re.compile(second.replace('{glob:second:', '(?P<second>').replace('}', ')'))
        seconds = sorted(n for n in os.listdir(scratch) if rx.fullmatch(n))
    total = len(found) * (2 if multi else 1) * len(seconds)
    mon.same('number of descriptions for {!r} in {!r}'.format(pattern, sorted(os.listdir(os.path.join(scratch, subdir)))), len(got), total)
    mon.same('numbers', [d['index_expansion'] for d in got], list(range(1, total + 1)))
    mon.same('files', sorted({d['fname'] for d in got}), [f for f, _ in found] if total else [])
    if not multi and not second:
        mon.same('order of the files', [d['fname'] for d in got], [f for f, _ in found])
    if multi:
        per = [(d['multi'], d['fname'], d.get('more')) for d in got]
        mon.check(len(set(per)) == len(per), 'duplicated descriptions: {!r}'.format(per))
    parts = dict(found)
    for d in got:
        mon.ev('descriptions-observed')
        names_ = parts[d['fname']]
        for k, v in refs.items():
            if isinstance(v, str):
                e = re.sub(r'\[glob:(\w+)\]', lambda m: names_.get(m.group(1), m.group(0)), v)
            else:
                e = v
            mon.check(d[k] == e and (isinstance(e, str) == isinstance(d[k], str)), '{!r} of {!r} is {!r}, expected {!r}'.format(k, d['fname'], d[k], e))
        if second:
            m = rx.fullmatch(d['more'])
            mon.check(m is not None, 'unexpected file {!r}'.format(d['more']))
            mon.same('part of the second file', d['last'], '<' + m.group('second') + '>')
        mon.same('names', set(d), set(desc) | {'index_expansion'})
        # nothing left to expand
    if not multi and not second and got:
        again = mon.ok('expand', util.expand, got[0])
        mon.check(len(again) == 1 and again[0]['fname'] == got[0]['fname'], 'expanded again: {!r}'.format(again))
