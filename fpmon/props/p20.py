"""P20: documentation and inventories describe every declared attribute faithfully."""

import re

from bronx.fancies import dump

from .. import gen, model, world
from ..lib import access_mode, capture, doc, fp, mkclass, newtag, same_dict, snapshot, uniq

KINDS = ('str', 'int', 'float', 'bool', 'colour', 'even', 'span', 'fplist', 'fpset', 'fptuple', 'fpstr', 'date', 'obj', 'cls', 'fpdict')
INFOS = ['The kind', 'A size. In metres', 'info with (parens) - and dash', 'x', 'Some **bold** text', None, None]
LEVELS = ['DEFAULT', 'ADVANCED', 'GURU']
EXTRA_NAMES = ['zebra', 'apple', 'Zed', 'b_', 'mid']


def gen_doc_decl(rng, levels, nmax=6, names=gen.NAMES):
    decl, kinds = gen.gen_decl(rng, kinds=KINDS, nmax=nmax, p_remap=0, p_alias=0.5, names=names)
    for name in sorted(decl['attr']):
        a = decl['attr'][name]
        a.pop('remap', None)
        for k in ('values', 'outcast'):
            if k in a and kinds[name] in ('int', 'float', 'even'):
                a[k] = [x for x in a[k] if not isinstance(x, bool)]     # True and 1 are the same value
        info = rng.choice(INFOS)
        a.pop('info', None)
        if info is not None:
            a['info'] = info
        if rng.random() < 0.6:
            a['doc_visibility'] = doc.visibility.level(rng.choice(levels))
        if rng.random() < 0.6:
            a['doc_zorder'] = rng.choice([-1000, -100, -99, -50, -1, 0, 1, 2, 50, 99, 100, 101, 5000])
        if rng.random() < 0.5:
            a['access'] = rng.choice(['rxx', 'rwx', 'rwd'])
        if rng.random() < 0.15 and kinds[name] == 'str':
            a['remap'] = {rng.choice(['old', 'older']): 'new_', 'b': 'c'}
        if rng.random() < 0.2 and a.get('optional'):
            a['default'] = rng.choice(['trailing_', 'a_b', '_x', 'a_ b_'])
        if rng.random() < 0.2 and 'alias' not in a and name in gen.NAMES:
            a['alias'] = [gen.ALIASES[gen.NAMES.index(name)] + '_']
    return decl, kinds


class DocModel:
    """What is known of a documented class."""

    def __init__(self, name, decl, info, only):
        self.name, self.decl, self.info, self.only = name, decl, info, only
        self.attrs = {k: model.norm_attr(v) for k, v in decl['attr'].items()}

    def order(self, levels):
        def key(name):
            a = self.attrs[name]
            return levels.index(a['doc_visibility']), - a['doc_zorder'], name
        return sorted(self.attrs, key=key)


def unescape(text):
    return text.replace('\\_', '_')


def rendered(value):
    """The rendering of a value, by an independent dumper."""
    d = dump.OneLineTxtDumper(tag=uniq('dumper'))
    d.reset()
    return d.dump(value)


def same_render(mon, what, got, value):
    """The rendering of this value (whatever the order of the items of a set)."""
    exp = rendered(value)
    got = unescape(got)
    if isinstance(value, (set, frozenset)) and len(value) > 1:
        mon.same(what + ' (characters)', sorted(got), sorted(exp))
        for v in value:
            mon.check(rendered(v) in got, '{}: {!r} does not show {!r}'.format(what, got, v))
    else:
        mon.same(what, got, exp)


ATTR = re.compile(r'^ {9}\* \*\*(?P<name>[^*]+)\*\* \(:class:`(?P<type>[^`]+)`\) - (?P<access>\w+) - (?P<info>.*)$')
SUB = re.compile(r'^ {11}\* (?P<key>[A-Z]\w*)(?P<sep>: |\. Default is )(?P<value>.*)$')
ONLY = re.compile(r'^ {9}\* \*\*(?P<name>[^*]+)\*\* - (?P<value>.*)$')
ALIAS = re.compile(r'^ {9}\* \*\*(?P<alias>.+)\*\* is an alias of (?P<name>.+)\.$')


def parse_sphinx(mon, text):
    """Sections of the documentation in the Sphinx format."""
    out = dict(attrs=[], only=[], aliases=[], head=[])
    where = 'head'
    for line in text.split('\n'):
        s = line.strip()
        if s.startswith('Automatic parameters'):
            where = 'attrs'
        elif s == 'Only clauses:':
            where = 'only'
        elif s == 'Aliases of some parameters:':
            where = 'aliases'
        elif s:
            if where == 'attrs':
                m = ATTR.match(line)
                if m:
                    out['attrs'].append((m.groupdict(), dict()))
                else:
                    m = SUB.match(line)
                    mon.check(m is not None and out['attrs'], 'unexpected line in the documentation: {!r}'.format(line))
                    sub = out['attrs'][-1][1]
                    mon.check(m.group('key') not in sub, '{} documented twice: {!r}'.format(m.group('key'), text))
                    sub[m.group('key')] = m.group('value') if m.group('sep') == ': ' else m.group('value').rstrip('.')
            elif where in ('only', 'aliases'):
                m = (ONLY if where == 'only' else ALIAS).match(line)
                mon.check(m is not None, 'unexpected line in the documentation: {!r}'.format(line))
                out[where].append(m.groups())
            else:
                out['head'].append(s)
    return out


def type_name(t):
    return (t.__module__ + '.' if not t.__module__.startswith('__') else '') + t.__name__


def check_sphinx(mon, dm, text, levels, abstractfpobj=False):
    p = parse_sphinx(mon, text)
    if not abstractfpobj:
        mon.check('* info: ' + dm.info in p['head'], 'the information of {} is not documented: {!r}'.format(dm.name, p['head']))
    mon.same('attributes documented for {} (levels {!r})'.format(dm.name, levels), [x[0]['name'] for x in p['attrs']], dm.order(levels))
    aliases = list()
    for head, sub in p['attrs']:
        name = head['name']
        a = dm.attrs[name]
        what = 'documentation of {} in {}: '.format(name, dm.name)
        mon.check(head['type'].endswith(a['type'].__name__) and head['type'].rpartition('.')[0] in ('', a['type'].__module__),
                  what + 'type {!r} ({!r})'.format(head['type'], a['type']))
        mon.same(what + 'access', head['access'], a['access'])
        mon.same(what + 'information', head['info'], a['info'] if a['info'] is not None else 'Not documented, sorry.')
        mon.check(('Optional' in sub) == a['optional'], what + 'optional {!r}'.format(sub))
        if a['optional']:
            same_render(mon, what + 'default', sub['Optional'], dm.decl['attr'][name].get('default'))
        for k in ('values', 'outcast'):
            mon.check((k.capitalize() in sub) == bool(a[k]), what + '{} {!r}'.format(k, sub))
            if a[k]:
                same_render(mon, what + k, sub[k.capitalize()], set(a[k]))
        mon.check(('Remap' in sub) == bool(a['remap']), what + 'remap {!r}'.format(sub))
        if a['remap']:
            same_render(mon, what + 'remap', sub['Remap'], a['remap'])
        if a['args']:
            same_render(mon, what + 'args', sub.get('Args', ''), a['args'])
        aliases.extend((x, name) for x in a['alias'])
        mon.ev('attributes-documented')
    mon.same('aliases documented for ' + dm.name, sorted(p['aliases']), sorted(set(aliases)))
    mon.same('rules documented for ' + dm.name, [x[0] for x in p['only']], sorted(dm.only))
    for name, value in p['only']:
        v = dm.only[name]
        if not isinstance(v, (set, frozenset)):
            mon.same('rule {} of {}'.format(name, dm.name), value, str(v))
    mon.ev('sphinx-documentation')


def check_basic(mon, dm, text):
    """The raw format."""
    lines = text.split('\n')
    names = [m.group(1) for m in (re.match(r'^ {14}(\S+) = dict\($', x) for x in lines) if m]
    mon.same('attributes in the raw documentation of ' + dm.name, sorted(names), sorted(dm.attrs))
    start = 0
    for name in names:
        i = lines.index('{:14s}{} = dict('.format('', name), start)
        j = next(k for k in range(i, len(lines)) if re.match(r'^ {14}\)[,.]? ?', lines[k]))
        block = '\n'.join(lines[i:j])
        a = dm.attrs[name]
        mon.check("access = '{}'".format(a['access']) in block, 'access of {}: {!r}'.format(name, block))
        mon.check('optional = {!r}'.format(a['optional']) in block, 'optional {}: {!r}'.format(name, block))
        for x in a['alias']:
            mon.check("'{}'".format(x) in block, 'alias {} of {}: {!r}'.format(x, name, block))
        default = dm.decl['attr'][name].get('default')
        if isinstance(default, (str, int, float, type(None))) and type(default) in (str, int, float, bool, type(None)):
            mon.check('default = {}, '.format("'{}'".format(default) if isinstance(default, str) else repr(default)) in block.replace('\n', ' ') + ', ',
                      'default {!r} of {}: {!r}'.format(default, name, block))
        for k in ('values', 'outcast'):
            for v in a[k]:
                if type(v) in (str, int, float):
                    mon.check(("'{}'".format(v) if isinstance(v, str) else repr(v)) in block, '{} {!r} of {}: {!r}'.format(k, v, name, block))
        mon.ev('attributes-documented')
    mon.ev('raw-documentation')


def check_doc(mon, dm, mode, text, base, levels):
    mon.check(text.startswith(base), 'the documentation of {} starts with {!r}, expected {!r}'.format(dm.name, text[:60], base))
    extra = text[len(base):]
    if mode == 0:
        mon.same('generated documentation', extra, '')
    elif mode == 2:
        check_sphinx(mon, dm, extra, levels)
    else:
        check_basic(mon, dm, extra)


def merged(base, decl):
    """The declarations of a child class (new attributes only, or attributes with another default, information...)."""
    out = {k: dict(v) for k, v in base['attr'].items()}
    for k, v in decl['attr'].items():
        out.setdefault(k, dict()).update(v)
    return dict(attr=out)


def change_visibility(rng, mon, levels):
    how = rng.choice(['before', 'after', 'again', 'insert', 'up', 'down'])
    ref = rng.choice(levels)
    mon.ev('visibility-' + how)
    if how in ('before', 'after'):
        new = [uniq('VIS').upper() for _ in range(rng.choice([1, 1, 2]))]
        mon.ok('set_' + how, getattr(doc, 'set_' + how), rng.choice([ref, ref.lower()]), *new)
        k = levels.index(ref) + (how == 'after')
        levels[k:k] = new
    elif how == 'again':
        # the same call, once the levels have been moved or reset
        new = [uniq('VIS').upper() for _ in range(rng.choice([1, 2]))]
        side = rng.choice(['before', 'after'])
        old = list(levels)
        for i in range(3):
            if i and rng.random() < 0.5:
                doc.visibility.reset()
                levels[:] = LEVELS
            elif i and len(levels) > 2:
                x = rng.choice([y for y in levels if y != ref and y not in new] or [ref])
                mon.ok('down', doc.visibility.level(x).down)
                k = levels.index(x)
                levels.insert(max(k - 1, 0), levels.pop(k))
            if ref not in levels:
                ref = rng.choice(levels)
            mon.ok('set_' + side, getattr(doc, 'set_' + side), ref, *new)
            levels[:] = [x for x in levels if x not in new]
            k = levels.index(ref) + (side == 'after')
            levels[k:k] = new
            mon.same('visibility levels', list(doc.visibility.levels), levels)
        for x in old:
            if x not in levels:
                # some class may use it
                mon.ok('insert', doc.visibility.insert, tag=x)
                levels.append(x)
    elif how == 'insert':
        new = uniq('VIS').upper()
        mon.ok('insert', doc.visibility.insert, tag=new, after=ref)
        levels.insert(levels.index(ref) + 1, new)
    else:
        k = levels.index(ref)
        if how == 'up':
            mon.ok('up', doc.visibility.level(ref).up)
            j = min(k + 1, len(levels) - 1)
        else:
            mon.ok('down', doc.visibility.level(ref).down)
            j = max(k - 1, 0)
        levels.insert(j, levels.pop(k))
    mon.same('visibility levels', list(doc.visibility.levels), levels)


def inventory(content):
    """The attribute map expected for these classes."""
    out = dict()
    for cls, dm in content.items():
        for k, a in dm.attrs.items():
            out.setdefault(k + (' [optional]' if a['optional'] else ''), []).append((cls.__name__, cls.__module__, a['values'], a['outcast']))
    return out


def same_set(a, b):
    return len(set(a)) == len(a) and set(a) == set(b)


def check_inventories(rng, mon, coll, content):
    allnames = sorted({k for dm in content.values() for k in dm.attrs})
    exp = inventory(content)
    only = None
    if rng.random() < 0.5:
        pick = rng.sample(allnames + ['nowhere', 'ki', 'in'], rng.choice([0, 1, 2]))
        form = rng.choice(['str', 'list', 'set', 'tuple', 'dict'])
        only = dict(list=list, set=set, tuple=tuple, dict=dict.fromkeys).get(form, list)(pick)
        if form == 'str':
            pick = pick[:1]
            only = pick[0] if pick else None
        if only is not None:
            exp = {k: v for k, v in exp.items() if k.replace(' [optional]', '') in pick}
    # attribute map
    how = rng.choice(['map', 'map', 'update', 'show', 'keys'])
    if how in ('map', 'update'):
        before = None if how == 'map' else dict(other=[5]) if rng.random() < 0.7 else dict()
        got = mon.ok('build_attrmap', coll.build_attrmap, *([before] if before is not None else []), only=only)
        if before is not None:
            mon.check(got is before and got.pop('other', [5]) == [5], 'the map given is not the one completed')
        mon.same('keys of the attribute map (only={!r})'.format(only), sorted(got), sorted(exp))
        for k in exp:
            mon.same('classes with the attribute ' + k, sorted((x['name'], x['module']) for x in got[k]), sorted(x[:2] for x in exp[k]))
            for x in got[k]:
                e = next(y for y in exp[k] if y[0] == x['name'])
                mon.check(same_set(x['values'], e[2]) and same_set(x['outcast'], e[3]),
                          'attribute {} of {}: {!r}, expected {!r}'.format(k, x['name'], x, e))
    elif how == 'keys':
        with capture() as text:
            mon.ok('show_attrkeys', coll.show_attrkeys, only=only)
        got = [x.split() for x in text.getvalue().split('\n') if x.strip()]
        mon.check(all(x[0] == '*' for x in got), 'printed: {!r}'.format(text.getvalue()))
        mon.same('attributes printed', [' '.join(x[1:]) for x in got], sorted(exp))
    else:
        with capture() as text:
            mon.ok('show_attrmap', coll.show_attrmap, only=only)
        got, cur = dict(), None
        order = list()
        for line in text.getvalue().split('\n'):
            if line.startswith(' * '):
                cur = line[3:].rstrip(':')
                mon.check(cur not in got, '{} printed twice'.format(cur))
                got[cur] = list()
                order.append(cur)
            elif '|' in line[:32]:
                k, _, v = line.lstrip(' |').partition(' = ')
                got[cur][-1][2][k] = v
            elif line.strip():
                m = re.match(r'^\s+(\S+)\s+\+ (\S+)$', line)
                mon.check(m and cur, 'printed: {!r}'.format(line))
                got[cur].append((m.group(1), m.group(2), dict()))
        mon.same('attributes printed', order, sorted(exp))
        for k in exp:
            mon.same('classes printed', [x[:2] for x in got[k]], sorted(x[:2] for x in exp[k]))
            for name, module, d in got[k]:
                e = next(y for y in exp[k] if y[0] == name)
                mon.same('ranges printed for {}'.format(name), sorted(d), sorted(w for w, v in zip(('values', 'outcast'), e[2:]) if v))
                for w, v in zip(('values', 'outcast'), e[2:]):
                    for x in v:
                        if type(x) in (str, int, float):
                            mon.check(re.sub("['()]", '', str(x)) in d[w], '{} of {} in {}: {!r}'.format(x, w, name, d[w]))
    mon.ev('inventory-' + how)
    # allowed values
    for name in rng.sample(allnames + ['nowhere'], min(3, len(allnames) + 1)):
        got = mon.ok('get_values', coll.get_values, name)
        vals = [v for dm in content.values() if name in dm.attrs for v in dm.attrs[name]['values']]
        mon.check(isinstance(got, list) and same_set(got, vals), 'values of {}: {!r}, expected {!r}'.format(name, got, vals))
        try:
            srt = sorted(set(vals))
        except TypeError:
            srt = None
        if srt is not None and all(type(x) in (str, int, float) for x in srt):
            mon.same('sorted values of ' + name, got, srt)
        mon.ev('values-inventoried')


def check_class_inventories(rng, mon, cls, dm):
    foot = cls.footprint_retrieve()
    aliases = {x for a in dm.attrs.values() for x in a['alias']}
    mon.same('mandatory', sorted(mon.ok('mandatory', cls.footprint_mandatory)), sorted(k for k, a in dm.attrs.items() if not a['optional']))
    mon.same('allkeys', foot.allkeys(), set(dm.attrs) | aliases)
    mon.same('as_opts', foot.as_opts(), set(dm.attrs) | aliases)
    mon.same('info', foot.info, dm.info)
    probe = rng.sample(sorted(set(dm.attrs) | aliases), min(2, len(dm.attrs))) + ['nowhere']
    rng.shuffle(probe)
    mon.same('track', foot.track(dict.fromkeys(probe)), [x for x in probe if x != 'nowhere'])
    for k, a in dm.attrs.items():
        mon.same('optional', cls.footprint_optional(k), a['optional'])
        mon.same('access', cls.footprint_access(k), a['access'])
        got = cls.footprint_values(k)
        mon.check(isinstance(got, list) and same_set(got, a['values']) and same_set(foot.get_values(k), a['values']) and
                  same_set(foot.get_outcast(k), a['outcast']), 'values of {}: {!r}'.format(k, got))
        if isinstance(got, list):
            got.append('garbage')
            mon.check('garbage' not in cls.footprint_values(k), 'the list of values is shared')
        d = access_mode(cls, k)
        info = a['info']
        mon.check(info is None or (d.__doc__ or '').startswith(info.rstrip('.')), 'documentation of the descriptor of {}: {!r}'.format(k, d.__doc__))
    mon.ev('class-inventories')


def run_case(rng, mon):
    levels = list(doc.visibility.levels)
    mon.same('visibility levels', levels, LEVELS)
    if rng.random() < 0.4:
        change_visibility(rng, mon, levels)
    tags = [newtag() for _ in range(rng.choice([1, 2]))]
    content = {t: dict() for t in tags}
    classes = dict()
    kindsof = dict()
    for i in range(rng.choice([1, 1, 2, 3, 4])):
        mode = rng.choice([0, 1, 2, 2, 2])
        fp.setup.docstrings = mode
        mine = sorted(rng.sample(tags, rng.randint(1, len(tags))))
        abstract = rng.random() < 0.15
        base = None
        name = uniq('Cls')
        nonabs = [c for c in classes if c in kindsof]
        if nonabs and rng.random() < 0.35:
            base = rng.choice(nonabs)
            names = [x for x in EXTRA_NAMES if x not in classes[base].decl['attr']]
            decl, kinds = gen_doc_decl(rng, levels, nmax=2, names=names or ['x{:d}'.format(i)])
            k = rng.choice(sorted(classes[base].decl['attr']))
            if rng.random() < 0.5:
                decl['attr'].setdefault(k, dict()).update(info='Another information', doc_zorder=rng.randint(-120, 120))
            full = merged(classes[base].decl, decl)
            kinds = dict(kindsof[base], **kinds)
        else:
            decl, kinds = gen_doc_decl(rng, levels)
            if rng.random() < 0.4:
                # a single alias for two attributes
                two = rng.sample(sorted(decl['attr']), min(2, len(decl['attr'])))
                for k in two:
                    decl['attr'][k]['alias'] = list(decl['attr'][k].get('alias', ())) + ['shared']
            full = decl
        info = rng.choice(['A class', 'Another one: x', 'Nice - really', None]) if not base else None
        only = dict()
        if rng.random() < 0.3:
            only = rng.choice([dict(kind='x'), dict(after_cutoff=3, before_zone=(4, 5)), dict(zone=re.compile('x.*'), Area=['u', 'v'])])
        footprint = world.user_copy(decl)
        if info:
            footprint['info'] = info
        if only:
            footprint['only'] = dict(only)
        allonly = dict(only)
        if base:
            allonly = dict(classes[base].only, **only)
            info = classes[base].info
        kw = dict(_abstract=abstract)
        basedoc = 'Not documented yet.'
        if rng.random() < 0.5:
            basedoc = kw['__doc__'] = 'Some class (_underscores_).'
        cls = mon.ok('define', mkclass, name, mine, footprint, bases=(base,) if base else None, **kw)
        dm = DocModel(name, full, info or 'Not documented', allonly)
        dm.text, dm.mode, dm.base, dm.levels = cls.__doc__, mode, basedoc, list(levels)
        classes[cls] = dm
        kindsof[cls] = kinds
        mon.note(name, 'docstrings', str(mode), footprint)
        check_doc(mon, dm, mode, cls.__doc__, basedoc, levels)
        if mode == 2:
            mon.nontrivial()
            check_sphinx(mon, dm, cls.footprint_retrieve().__doc__, levels, abstractfpobj=True)
        elif mode == 1:
            check_basic(mon, dm, cls.footprint_retrieve().__doc__)
        if not abstract:
            for t in mine:
                content[t][cls] = dm
        if rng.random() < 0.3:
            change_visibility(rng, mon, levels)
    mon.sig([(dm.decl, dm.mode) for dm in classes.values()], levels)
    # the answers before...
    queries = list()
    for _ in range(3):
        t = rng.choice(tags)
        if not content[t]:
            continue
        c = rng.choice(sorted(content[t], key=lambda x: x.__name__))
        queries.append((t, gen.gen_desc(rng, classes[c].decl, kindsof[c], p_good=0.97)))

    def answers():
        out = list()
        for t, desc in queries:
            r = fp.collectors.get(tag=t).find_all(dict(desc))
            out.append(sorted([(c.__name__, resolved) for c, resolved, _ in r], key=lambda x: x[0]))
        return out

    o = mon.call('answers', answers)
    before = o.value
    state = {c: snapshot(c.footprint_retrieve().as_dict()) for c in classes}
    for _ in range(rng.randint(2, 6)):
        cls = rng.choice(list(classes))
        dm = classes[cls]
        r = rng.random()
        if r < 0.25:
            change_visibility(rng, mon, levels)
        elif r < 0.45:
            text = mon.ok('format_docstring', doc.format_docstring, cls.footprint_retrieve(), 2, *rng.choice([(), (True,), (False,)]))
            check_sphinx(mon, dm, text, levels, abstractfpobj=True)
        elif r < 0.55:
            check_basic(mon, dm, mon.ok('format_docstring', doc.format_docstring, cls.footprint_retrieve(), rng.choice([1, 1, 5])))
        elif r < 0.85:
            t = rng.choice(tags)
            if content[t] and rng.random() < 0.3:
                # one class after the other out of the collector
                for c in rng.sample(sorted(content[t], key=lambda x: x.__name__), min(2, len(content[t]))):
                    mon.ok('discard', fp.collectors.get(tag=t).discard, c)
                    check_inventories(rng, mon, fp.collectors.get(tag=t), {k: v for k, v in content[t].items() if k is not c})
                    mon.ok('add', fp.collectors.get(tag=t).add, c)
                mon.ev('inventories-between-removals')
            check_inventories(rng, mon, fp.collectors.get(tag=t), content[t])
        else:
            check_class_inventories(rng, mon, cls, dm)
    for c, dm in classes.items():
        mon.check(snapshot(c.footprint_retrieve().as_dict()) == state[c], 'the declaration of {} has changed'.format(dm.name))
        mon.same('documentation of ' + dm.name, c.__doc__, dm.text)
    again = mon.call('answers', answers)
    mon.check(again.ok == o.ok, 'queries: {!r}, then {!r}'.format(o, again))
    if o.ok:
        for x, y in zip(before, again.value):
            mon.check(len(x) == len(y) and all(i[0] == j[0] and same_dict(i[1], j[1]) for i, j in zip(x, y)),
                      'answers before: {!r}, after: {!r}'.format(x, y))
        mon.ev('answers-compared', sum(len(x) for x in before))
