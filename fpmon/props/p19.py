"""P19: 'only' rules filter candidates exactly."""

from .. import gen, model, world
from ..lib import fp, mkclass, newtag, uniq


def run_case(rng, mon):
    w = world.World(newtag())
    decl, kinds = gen.gen_decl(rng, nmax=4, p_values=0.3, p_outcast=0.1, p_remap=0.15)
    parents = dict()
    for i in range(rng.randint(1, 4) if rng.random() > 0.06 else rng.randint(5, 16)):
        own = dict(attr={k: dict(v) for k, v in decl['attr'].items()}, only=gen.gen_only(rng, decl, kinds))
        if i and rng.random() < 0.15:
            del own['only']
        if rng.random() < 0.25:
            # inherited rules
            up = dict(attr={k: dict(v) for k, v in own['attr'].items()}, only=gen.gen_only(rng, decl, kinds, n=1))
            how = rng.choice(['parent', 'object', 'list'])
            if how == 'parent':
                mother = mkclass(uniq('Mother'), (newtag(),), world.user_copy(up), _abstract=rng.random() < 0.5)
                cls = w.add(model.merge(up, own), kinds, footprint=world.user_copy(dict(only=own.get('only', {}))), bases=(mother,))
            elif how == 'object':
                foot = fp.Footprint(only=world.user_copy(up['only']))
                cls = w.add(model.merge(dict(only=up['only']), own), kinds, footprint=[foot, world.user_copy(own)])
            else:
                cls = w.add(model.merge(dict(only=up['only']), own), kinds,
                            footprint=[dict(only=world.user_copy(up['only'])), world.user_copy(own)])
            parents[cls] = how
            mon.ev('inherited-rules')
        else:
            cls = w.add(own, kinds)
        mon.note('class', cls.__name__, w.classes[cls].decl)
    coll = w.collector
    coll.report = rng.choice([0, 1, 2, 3])
    for _ in range(rng.randint(2, 8)):
        defaults = dict(gen.gen_only_defaults(rng), **gen.gen_defaults(rng, [(decl, kinds)], p=0.3))
        w.set_setup(defaults, rng.choice([None, dict(cutoff='extra', nowhere='x')]), rng.random() < 0.8)
        desc = gen.gen_desc(rng, decl, kinds, p_good=0.97, p_none=0.04, p_nulltext=0)
        if rng.random() < 0.2:
            desc[rng.choice(['cutoff', 'nowhere', 'Year'])] = 'assim'     # not an attribute: no effect on the rules
        for k in kinds:
            if kinds[k] == 'str' and k in desc and rng.random() < 0.08:
                desc[k] = ''
        exp = w.expected(desc)
        if not world.defined(exp):
            mon.ev('undefined')
            mon.call('find_all-undefined', coll.find_all, dict(desc))
            continue
        if any(v.status in ('cycle', 'unreachable') for v in exp.values()):
            continue
        mon.note('description', desc, 'defaults', defaults)
        good = {c for c, v in exp.items() if v.status == 'ok'}
        mon.sig(sorted(map(repr, desc.items())), sorted(map(repr, defaults.items())),
                sorted(repr(sorted(m.only.items(), key=repr)) for m in w.classes.values()), len(good))
        for c, v in exp.items():
            if w.classes[c].only:
                mon.ev('only-' + v.status)
                if v.status in ('ok', 'only'):
                    mon.nontrivial()
        fp.setup.fastmode = rng.random() < 0.3
        found = mon.ok('find_all', coll.find_all, dict(desc))
        got = {x[0] for x in found}
        mon.same('candidates for {!r} with the defaults {!r}'.format(desc, defaults),
                 {c.__name__ for c in got}, {c.__name__ for c in good})
        for c, values, _ in found:
            world.check_values(mon, c.__name__, values, exp[c])
        c = rng.choice(sorted(w.classes, key=lambda x: x.__name__))
        one = mon.ok('footprint_couldbe', c.footprint_couldbe, dict(desc))[0]
        mon.check(bool(one) == (c in good), 'couldbe says {!r} for {}'.format(one, c.__name__))
        obj = mon.ok('load', coll.load, **dict(desc))
        mon.check((obj is None) == (not good) and (obj is None or type(obj) in good), 'load gives {!r}'.format(obj))
        anyone = mon.ok('find_any', coll.find_any, dict(desc))
        mon.check((anyone is None) == (not good) and (anyone is None or type(anyone) in good), 'find_any gives {!r}'.format(anyone))
        del obj, anyone
        mon.ev('queries')
