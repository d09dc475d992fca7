"""P01: every object produced conforms to the footprint its class declares."""

import weakref

from .. import gen, model, world
from ..lib import fp, target, uniq, newtag

ACCESS = ['rxx', 'rwx', 'rwd', 'rxx-weak', 'rwx-weak', 'rwd-weak']


def conforms(mon, obj, decl, how):
    """The oracle: only the declaration of the class is needed."""
    attrs = decl['attr']
    mon.ev('objects-observed')
    mon.same('attributes of an object obtained by ' + how, list(obj.footprint_attributes), sorted(attrs))
    for name, d in attrs.items():
        a = model.norm_attr(d)
        v = getattr(obj, name)
        mon.ev('attributes-observed')
        if v is None:
            mon.check(a['optional'], '{}: the mandatory attribute {} reads None'.format(how, name), decl=d)
            mon.ev('unset-optionals')
            continue
        tv = target(v)
        if isinstance(tv, weakref.ProxyTypes):
            mon.ev('weak-target-gone')
            continue
        mon.check(not (isinstance(tv, str) and tv == 'None'), '{}: attribute {} holds the text None'.format(how, name))
        mon.check(not (isinstance(tv, str) and tv == '__unknown__'),
                  '{}: the unset attribute {} does not read as None'.format(how, name))
        if a['isclass']:
            mon.check(isinstance(tv, type) and issubclass(tv, a['type']),
                      '{}: attribute {}: {!r} is not a subclass of {!r}'.format(how, name, tv, a['type']))
        else:
            mon.check(isinstance(tv, a['type']),
                      '{}: attribute {}: {!r} is not a {!r}'.format(how, name, tv, a['type']))
        if a['values']:
            mon.ev('values-restricted')
            mon.check(any(bool(x == tv) for x in a['values']),
                      '{}: attribute {}: {!r} is not allowed ({!r})'.format(how, name, tv, a['values']))
        if a['outcast']:
            mon.ev('outcast-restricted')
            mon.check(not any(bool(x == tv) for x in a['outcast']),
                      '{}: attribute {}: {!r} is excluded ({!r})'.format(how, name, tv, a['outcast']))
        if 'weak' in a['access']:
            mon.ev('weak-attributes')


def weaken(rng, decl, kinds):
    """Random access modes (weak ones only for values that can be weakly referenced)."""
    for name, a in decl['attr'].items():
        weakable = kinds[name] in ('obj', 'span', 'loose', 'fpset')
        a['access'] = rng.choice(ACCESS if weakable else ACCESS[:3])


TEMPLATES = ['[kind]', 'p-[{0}]', '[{0}]', '[{0}#None]', '[{0}#dflt]', 'None', '[nothere#None]', 'No[nothere#ne]',
             '[{0}]/[kind#k]', 'None,None', '[foreign#u]', '[ghost]', '1[nothere#2]']


def run_case(rng, mon):
    w = world.World(fp and newtag())
    decls = list()
    for _ in range(rng.randint(1, 4)):
        if decls and rng.random() < 0.4:
            base, kinds = rng.choice(decls)
            decl = dict(attr={k: dict(v) for k, v in base['attr'].items()})
        else:
            decl, kinds = gen.gen_decl(rng)
        weaken(rng, decl, kinds)
        for name, a in decl['attr'].items():
            if a.get('optional') and rng.random() < 0.3:
                a['default'] = rng.choice(TEMPLATES).format(rng.choice(sorted(decl['attr'])))
        decls.append((decl, kinds))
        parent = None
        if rng.random() < 0.3:
            # some of the attributes come from an abstract parent
            names = sorted(decl['attr'])
            rng.shuffle(names)
            cut = rng.randint(0, len(names))
            from ..lib import mkclass
            parent = mkclass(uniq('Abs'), (w.tag,), world.user_copy(dict(attr={k: decl['attr'][k] for k in names[:cut]})),
                             _abstract=True)
            own = dict(attr={k: decl['attr'][k] for k in names[cut:]})
            w.add(decl, kinds, footprint=world.user_copy(own), bases=(parent,), _abstract=False)
            mon.ev('inherited-declarations')
        else:
            w.add(decl, kinds)
    bases = {c: m.decl for c, m in w.classes.items()}
    mon.note('classes', {c.__name__: d for c, d in bases.items()})
    defaults = gen.gen_defaults(rng, decls, p=0.5)
    fp.setup.defaults = defaults
    extras = rng.choice([{}, dict(ghost='None', foreign='x'), dict(ghost='red'), dict(nothere='None')])
    fp.setup.callback = lambda: dict(extras)
    fp.setup.fastmode = rng.random() < 0.2
    fp.setup.fatal = rng.random() < 0.5
    fp.setup.extended = rng.random() < 0.8
    if rng.random() < 0.2:
        w.collector.fasttrack = rng.sample(gen.NAMES, 2)
    keep = list()
    for _ in range(rng.randint(2, 7)):
        decl, kinds = rng.choice(decls)
        desc = gen.gen_desc(rng, decl, kinds, p_good=0.9)
        for k in list(desc):
            if rng.random() < 0.12:
                desc[k] = rng.choice(TEMPLATES).format(rng.choice(sorted(decl['attr'])))
        # the targets of weak attributes have to stay alive
        keep.append(desc)
        mon.note('description', desc)
        mon.sig(sorted(decl['attr']), sorted(desc.items(), key=repr))
        how = rng.choice(['load', 'pickup', 'default', 'construct', 'find_best', 'find_any', 'default'])
        cls = rng.choice(sorted(bases, key=lambda c: c.__name__))
        if how == 'load':
            o = mon.call(how, fp.load, tag=w.tag, **desc)
        elif how == 'default':
            o = mon.call(how, fp.default, tag=w.tag, **desc)
        elif how == 'construct':
            # from named values, a dictionary, or both
            named = {k: v for k, v in desc.items() if rng.random() < 0.5} if rng.random() < 0.5 else desc
            first = {k: v for k, v in desc.items() if k not in named}
            o = mon.call(how, cls, *([first] if first or rng.random() < 0.5 else []), **named)
        elif how == 'pickup':
            o = mon.call(how, fp.pickup, dict(desc, tag=w.tag))
            if o.ok:
                o.value = o.value[w.tag]
        else:
            o = mon.call(how, getattr(w.collector, how), dict(desc))
        if not o.ok:
            # Refusals are the topic of other properties
            if not isinstance(o.exc, (fp.FootprintException, ReferenceError, ValueError, TypeError, AttributeError)):
                mon.fail('unexpected failure', exc=o.exc)
            continue
        obj = o.value
        if obj is None:
            continue
        if how == 'construct':
            mon.check(type(obj) is cls, 'not an instance of the class')
        mon.check(type(obj) in bases, 'an object of an unknown class: {!r}'.format(type(obj)))
        mon.nontrivial()
        conforms(mon, obj, bases[type(obj)], how)
        keep.append(obj)
        if rng.random() < 0.3:
            c = mon.call('clone', obj.footprint_clone)
            if c.ok:
                conforms(mon, c.value, bases[type(obj)], 'clone')

