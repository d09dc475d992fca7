"""P15: a failed query is explained, every rejected class with its actual reasons."""

import re

from .. import gen, world
from ..lib import capture, fp, reporting, target, uniq, newtag

WHY = dict(missing=('why', 'Missing value'), invalid=('why', 'Invalid value'), reclass=('why', 'Could not reclass'),
           subclass=('why', 'Not a subclass'), outside=('why', 'Not in values'), outcast=('why', 'Outcast value'),
           notfound=('only', 'No value found'), notmatch=('only', 'Do not match'))


def variant(rng, decl, kinds):
    """The same attributes, with other constraints."""
    out = dict(attr={k: (dict(v) if rng.random() < 0.4 else gen.gen_attr(rng, kinds[k], p_values=0.6, p_outcast=0.4,
                                                                           alias=gen.ALIASES[gen.NAMES.index(k)]))
                     for k, v in decl['attr'].items()})
    if all(a.get('optional') for a in out['attr'].values()):
        a = out['attr'][sorted(out['attr'])[0]]
        a.pop('optional', None)
        a.pop('default', None)
    return out


def make_world(rng):
    w = world.World(newtag())
    decl, kinds = gen.gen_decl(rng, nmax=5, p_outcast=0.35)
    w.decls = [(decl, kinds)]
    for i in range(rng.choice([0, 1, 2, 3, 4, 6])):
        d = variant(rng, decl, kinds) if i else dict(attr={k: dict(v) for k, v in decl['attr'].items()})
        if rng.random() < 0.35:
            d['only'] = gen.gen_only(rng, decl, kinds)
        w.add(d, kinds, module=rng.choice(['alpha', 'alpha.one', 'beta', 'fpmoncase']))
        w.decls.append((d, kinds))
    coll = w.collector
    coll.report = rng.choice([0, 1, 1, 2, 3])
    w.last = w.lastraw = None
    return w


def raw(entry):
    """The content of a report entry: dict(class=[dict...])."""
    out = dict()
    for c in entry:
        if c.name in out:
            out[c.name] = 'several entries'
        else:
            out[c.name] = [dict(x) for x in c]
    return out


def check_class(mon, w, name, items, verdict, desc, fastkeys):
    """The reasons reported for a given class are the ones of the model."""
    got = dict()
    for x in items:
        mon.check(x['name'] not in got, '{}: attribute {} is reported twice: {!r}'.format(name, x['name'], items))
        mon.check(('why' in x) != ('only' in x), '{}: reported as {!r}'.format(name, x))
        got[x['name']] = ('why', x['why']) if 'why' in x else ('only', x['only'])
    mon.ev('classes-explained')
    if verdict.status == 'ok':
        mon.same('reasons of {} which accepts {!r}'.format(name, desc), got, {})
    elif verdict.status in ('reject', 'only'):
        exp = {k: WHY[v] for k, v in verdict.reasons.items()}
        for v in verdict.reasons.values():
            mon.ev('reason-' + v)
        partial = verdict.status == 'only' or fp.setup.fastmode or any(k in exp for k in fastkeys)
        if partial:
            mon.check(got and all(exp.get(k) == v or (v == WHY['invalid'] and k in w.nulls) for k, v in got.items()),
                      'reasons of {} which rejects {!r}: reported {!r}, expected (among) {!r}'.format(name, desc, got, exp))
        else:
            mon.same('reasons of {} which rejects {!r}'.format(name, desc), got, exp)


def check_entry(mon, w, entry, exp, desc, fastkeys, subset=False):
    mon.check(entry is not None, 'no report at all')
    mon.same('name of the report', entry.name, w.tag)
    content = raw(entry)
    names = {c.fullname(): c for c in w.classes}
    if subset:
        mon.check(set(content) <= set(names), 'unexpected classes reported: {!r}'.format(set(content) - set(names)))
    else:
        mon.same('classes reported', set(content), set(names))
    for name, items in content.items():
        mon.check(items != 'several entries', '{} is reported several times'.format(name))
        check_class(mon, w, name, items, exp[names[name]], desc, fastkeys)
    mon.same('dictionary of the report', entry.as_dict(), {
        n: {x['name']: {k: v for k, v in x.items() if k != 'name'} for x in items} for n, items in content.items()})
    return content


def whynot(rng, mon, coll, content):
    pattern = rng.choice(['.', 'alpha', 'BETA', 'cls', r'\.one\.', 'nope', '^alpha', '$'] + sorted(content)[:2])
    got = mon.ok('report_whynot', coll.report_whynot, pattern)
    exp = {n: {x['name']: {k: v for k, v in x.items() if k != 'name'} for x in items}
           for n, items in content.items() if items and re.search(pattern, n, re.I)}
    mon.same('whynot {!r}'.format(pattern), got, exp)


def run_case(rng, mon):
    worlds = [make_world(rng) for _ in range(rng.choice([1, 1, 2]))]
    for w in worlds:
        for c, m in w.classes.items():
            mon.note('class', c.fullname(), m.decl, 'report', w.collector.report)
    fastkeys = fp.setup.fastkeys = rng.choice([(), (), ('kind',), ('color', 'size')])
    for _ in range(rng.randint(3, 9)):
        w = rng.choice(worlds)
        coll = w.collector
        if rng.random() < 0.2:
            coll.report = rng.choice([0, 1, 2, 3])
        if rng.random() < 0.1:
            coll.fasttrack = rng.sample(sorted(w.decls[0][0]['attr']), 1)
        fp.setup.fastmode = rng.random() < 0.1
        defaults = dict(gen.gen_only_defaults(rng), **gen.gen_defaults(rng, w.decls[:1], p=0.3))
        w.set_setup(defaults, rng.choice([None, dict(ghost='red')]))
        decl, kinds = rng.choice(w.decls)
        desc = gen.gen_desc(rng, decl, kinds, p_good=rng.choice([0.5, 0.8, 0.98]), p_none=rng.choice([0.02, 0.15]),
                            p_nulltext=rng.choice([0, 0.1]), p_range=rng.choice([0.2, 0.9]))
        if rng.random() < 0.15:
            for k in list(desc):
                if rng.random() < 0.5:
                    del desc[k]
        if rng.random() < 0.1:
            desc[rng.choice(sorted(decl['attr']))] = rng.choice(['[ghost]', '[unknown#x]', '[ghost::nothing]'])
        exp = w.expected(desc)
        w.nulls = set()         # texts 'None' are reported, even when a fast exit occurred before
        for c in w.classes.values():
            for k, a in c.attrs.items():
                if any(desc.get(x) == 'None' for x in [k] + a['alias']):
                    w.nulls.add(k)
        if any(v.status in ('cycle', 'unreachable') for v in exp.values()):
            mon.call('failing-query', coll.find_all, dict(desc))
            w.last = coll.report_last
            w.size = w.lastraw = None
            continue
        failing = not any(v.status in ('ok', 'undefined') for v in exp.values())
        undefined = any(v.status == 'undefined' for v in exp.values())
        level = coll.report
        others = [(x, len(x.collector.report_log), x.collector.report_last) for x in worlds if x is not w]
        size = len(coll.report_log)
        how = rng.choice(['find_all', 'find_best', 'find_any', 'load', 'pickup', 'default', 'couldbe', 'direct'])
        mon.note(how, 'report', level, 'description', desc, 'defaults', defaults)
        out = ''
        if how in ('find_all', 'find_best', 'find_any'):
            o = mon.call(how, getattr(coll, how), dict(desc))
            found = o.ok and o.value is not None and o.value != []
        elif how in ('load', 'default'):
            if how == 'default' and len(coll.instances):
                how = 'load'
            o = mon.call(how, getattr(coll, how), **dict(desc))
            found = o.ok and o.value is not None
        elif how == 'pickup':
            rd = dict(desc)
            opts = dict()
            if rng.random() < 0.3:
                opts['_report'] = rng.random() < 0.5
            if rng.random() < 0.3:
                opts['_emptywarning'] = rng.random() < 0.5
            if rng.random() < 0.6:
                opts['_report_style'] = rng.choice([0, 1, 2, 3])
            coll.report_auto = rng.random() < 0.8
            rd.update(opts)
            with capture() as text:
                o = mon.call(how, coll.pickup, rd)
            out = text.getvalue()
            found = o.ok and o.value[w.tag] is not None
        else:
            # Nothing to do with the report log of the collector
            if not w.classes:
                continue
            c = rng.choice(sorted(w.classes, key=lambda x: x.__name__))
            if how == 'couldbe':
                mine = None
                if rng.random() < 0.4:
                    # A log of one's own
                    mine = reporting.get(tag=uniq('mine'), weak=rng.random() < 0.5)
                    mine.add(collector=coll)
                    void = reporting.get(tag='void').last
                with capture() as text:
                    o = mon.call(how, c.footprint_couldbe, dict(desc), **(dict(report=mine) if mine is not None else dict(mkreport=True)))
                if not o.ok:
                    mon.check(exp[c].status == 'undefined', 'couldbe failed unexpectedly: {!r}'.format(o.exc))
                if o.ok and exp[c].status != 'undefined':
                    mon.check(bool(o.value[0]) == (exp[c].status == 'ok'), 'couldbe gives {!r}'.format(o.value))
                    if exp[c].status != 'undefined':
                        entry = reporting.get(tag='void').last if mine is None else mine.last
                        if mine is not None:
                            mon.check(reporting.get(tag='void').last is void, 'recorded in another log')
                            mon.ev('own-logs')
                        content = raw(entry)
                        mon.same('class reported by couldbe', list(content), [c.fullname()])
                        check_class(mon, w, c.fullname(), content[c.fullname()], exp[c], desc, fastkeys)
                    if exp[c].status == 'reject' and mine is None:
                        mon.check(c.fullname() in text.getvalue() and all(
                            x['name'] in text.getvalue() and x['why'] in text.getvalue() for x in content[c.fullname()]),
                            'couldbe prints {!r} for {!r}'.format(text.getvalue(), content))
                        mon.nontrivial()
            else:
                mon.call(how, lambda: c(**dict(desc)))
            mon.check(coll.report_last is w.last if w.last is not None else len(coll.report_log) == size,
                      'the report log of the collector has been changed by {}'.format(how))
            continue
        for x, n, last in others:
            mon.check(len(x.collector.report_log) == n and x.collector.report_last is last,
                      'the report of another collector has been changed')
        if not o.ok:
            mon.check(undefined, '{} failed unexpectedly: {!r}'.format(how, o.exc))
            w.last = coll.report_last
            w.lastraw = None
            continue
        mon.sig(how, level, sorted(map(repr, desc.items())), sorted(map(repr, (m.decl for m in w.classes.values()))))
        if not undefined:
            mon.check(found == (not failing), '{} gives {!r} whereas the verdicts are {!r}'.format(how, o.value, exp))
        reported = level >= 2 or (level == 1 and not found)
        if not reported:
            mon.check(coll.report_last is w.last and len(coll.report_log) == size,
                      'a report has been written (level {}, found {}): {!r}'.format(level, found, coll.report_last and raw(coll.report_last)))
            if coll.report_last is not None and w.lastraw is not None:
                mon.same('content of the previous report', raw(coll.report_last), w.lastraw)
            mon.ev('silent')
        else:
            mon.check(coll.report_last is not w.last, 'no report of the last query (level {})'.format(level))
            mon.same('size of the log', len(coll.report_log), size + 1)
            subset = bool(coll.fasttrack) or (how == 'find_any' and found)
            content = check_entry(mon, w, coll.report_last, exp, desc, fastkeys, subset)
            if subset:
                listed = {c for c in w.classes if c.fullname() in content}
                if how == 'find_any' and found:
                    mon.check(type(o.value) in listed, '{!r} is not reported'.format(o.value))
                else:
                    mon.check(all(exp[c].status != 'ok' for c in w.classes if c not in listed),
                              'an accepting class is not reported')
            whynot(rng, mon, coll, content)
            w.last = coll.report_last
            w.lastraw = content
            mon.ev('reports-observed')
            if not found and content:
                mon.ev('failures-explained')
                mon.nontrivial()
        if how == 'pickup':
            expected = not found and opts.get('_emptywarning', True) and opts.get('_report', coll.report_auto) and level
            mon.check(bool(out.strip()) == bool(expected), 'pickup printed {!r} (options {!r}, level {}, found {})'.format(
                out, opts, level, found))
            if expected:
                mon.ev('printed-reports')
                style = opts.get('_report_style', coll.report_style)
                for n, items in content.items():
                    for x in items:
                        mon.check(n in out and x['name'] in out, 'style {}: {} {!r} not in {!r}'.format(style, n, x, out))
                        if style in (0, 2, 3):
                            mon.check(x.get('why', x.get('only')) in out, 'style {}: {} {!r} not in {!r}'.format(style, n, x, out))
        del o
    if rng.random() < 0.2:
        for w in worlds:
            with capture() as text:
                for _ in range(2):
                    at = len(text.getvalue())
                    mon.ok('report_dump', w.collector.report_dump)
                    last = w.collector.report_last
                    if last is not None:
                        out = text.getvalue()[at:]
                        for x in last:
                            mon.check(x.name in out, 'report_dump: {} not in {!r}'.format(x.name, out))
                    if last is not None:
                        at = len(text.getvalue())
                        mon.ok('report_dumplast', w.collector.report_dumplast)
                        out = text.getvalue()[at:]
                        for x in last:
                            mon.check(x.name in out, 'report_dumplast: {} not in {!r}'.format(x.name, out))


assert target
