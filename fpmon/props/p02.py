"""P02: the candidates for a description are exactly the classes that accept it."""

from .. import gen, world
from ..lib import fp


MEMBERS = ['footprint', 'footprint_info', 'footprint_level', 'realkind', 'info', 'attr', 'only', 'priority', 'level', 'values', 'default',
           'optional', '_footprint', 'mro', '__init__', 'load', 'report', 'args', 'shortname', 'footprint_values']


def run_case(rng, mon):
    w = world.random_world(rng, nmax=6, p_only=0.15, p_same=0.06, kinds=gen.EVERYKIND)
    w.set_setup(dict(gen.gen_defaults(rng, w.decls, p=0.3), **(gen.gen_only_defaults(rng) if rng.random() < 0.3 else {})))
    coll = w.collector
    coll.report = rng.choice([0, 1, 2, 3])
    mon.note('classes', {c.__name__: m.decl for c, m in w.classes.items()}, 'defaults', w.setup.defaults)
    for _ in range(rng.randint(1, 5)):
        decl, kinds = rng.choice(w.decls)
        desc = gen.gen_desc(rng, decl, kinds)
        if rng.random() < 0.15:
            # what no class declares is ignored, whatever its name
            for k in rng.sample(MEMBERS, rng.randint(1, 3)):
                desc[k] = rng.choice(['x', 1, None, [1]])
        exp = w.expected(desc)
        if not world.defined(exp):
            mon.ev('undefined-skipped')
            continue
        mon.note('description', desc, {c.__name__: v.status for c, v in exp.items()})
        mon.sig(sorted(srepr_decl(m.decl) for m in w.classes.values()), sorted(desc.items(), key=repr))
        okset = {c for c, v in exp.items() if v.status == 'ok'}
        mon.ev('classes-accepting', len(okset))
        mon.ev('classes-rejecting', len(exp) - len(okset))
        if okset or any(v.status == 'reject' for v in exp.values()):
            mon.nontrivial()
        found = mon.ok('find_all', coll.find_all, dict(desc))
        got = [x[0] for x in found]
        mon.check(len(got) == len(set(got)), 'a class is found several times')
        if set(got) != okset:
            miss, extra = okset - set(got), set(got) - okset
            mon.fail('candidates {}, expected {} for {!r}; wrongly rejected: {}; wrongly accepted: {}'.format(
                sorted(c.__name__ for c in got), sorted(c.__name__ for c in okset), desc,
                {c.__name__: w.classes[c].decl for c in miss},
                {c.__name__: (w.classes[c].decl, exp[c].reasons) for c in extra}))
        for c, values, inputs in found:
            world.check_values(mon, 'find_all ' + c.__name__, values, exp[c])
            mon.ev('candidates-compared')
        anyone = mon.ok('find_any', coll.find_any, dict(desc))
        if okset:
            mon.check(anyone is not None, 'find_any found nothing whereas find_all did')
            mon.check(type(anyone) in okset, 'find_any returned a {!r}'.format(type(anyone)))
            world.check_object(mon, 'find_any', anyone, exp[type(anyone)])
        else:
            mon.check(anyone is None, 'find_any returned {!r} from no candidate'.format(anyone))
            mon.check(mon.ok('find_best', coll.find_best, dict(desc)) is None, 'find_best returned something from no candidate')
            mon.check(mon.ok('load', fp.load, tag=w.tag, **desc) is None, 'load returned something from no candidate')
        # Straight from the class
        for c, v in exp.items():
            rd, inp = mon.ok('couldbe', c.footprint_couldbe, dict(desc))
            if v.status == 'ok':
                mon.check(bool(rd), 'couldbe refused whereas the class accepts', cls=c.__name__)
                world.check_values(mon, 'couldbe ' + c.__name__, rd, v)
            else:
                mon.check(not rd, 'couldbe accepted {!r} whereas the class rejects ({!r})'.format(desc, v.reasons))
            o = mon.call('construct', c, **desc)
            # Direct construction ignores the 'only' rules
            if v.status in ('ok', 'only'):
                if not o.ok:
                    mon.fail('construction refused: ' + repr(o.exc), exc=o.exc)
                if v.status == 'ok':
                    world.check_object(mon, 'construct', o.value, v)
            else:
                mon.check(not o.ok, 'construction accepted {!r} ({!r})'.format(desc, v.reasons))


def srepr_decl(d):
    return repr(sorted((k, sorted((kk, repr(sorted(vv, key=repr)) if isinstance(vv, (set, list, tuple)) else repr(vv))
                                  for kk, vv in a.items())) for k, a in d['attr'].items()))
