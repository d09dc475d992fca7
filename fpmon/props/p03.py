"""P03: attribute values come from the right source, in a fixed order of precedence."""

from .. import gen, model, world
from ..lib import fp, mkclass, newtag, same_value, uniq  # noqa: F401

# Falsy values matter as much as the others
POOL = dict(
    str=['', 'a', 'b', 'c', 'd', 'e', 'f', ' ', 'None?', '0'],
    int=[0, 1, 2, 3, 4, 5, '0', '7', False],
    float=[0.0, 1.5, 2.5, '0', '3.5', 4, 5.25],
    bool=[True, False, 0, 1, ''],
    fplist=[fp.FPList(), fp.FPList([1]), fp.FPList([2]), fp.FPTuple((3,)), fp.FPList([4, 5])],
    fpdict=[fp.FPDict(), fp.FPDict(a=1), fp.FPDict(a=2)],
    loose=['red', 'Blue', 'green', 'x', ''],
)


class Counting:
    """A value provider whose value changes at each resolution."""

    def __init__(self, values):
        self.values = list(values)
        self.i = -1

    def footprint_value(self):
        self.i += 1
        return self.values[self.i % len(self.values)]

    def __deepcopy__(self, memo):
        return self


class OwnCounting(Counting):
    """The same, the method being a member of the object."""
    footprint_value = property(lambda self: self._footprint_value)

    def _footprint_value(self):
        self.i += 1
        return self.values[self.i % len(self.values)]


class SetCounting:
    """The same, the method being set on the object."""

    def __init__(self, values):
        self.values = list(values)
        self.i = -1
        self.footprint_value = self._value

    def _value(self):
        self.i += 1
        return self.values[self.i % len(self.values)]

    def __deepcopy__(self, memo):
        return self


class DynCounting:
    """The same, the method being found dynamically."""

    def __init__(self, values):
        self.values = list(values)
        self.i = -1

    def __getattr__(self, name):
        if name == 'footprint_value':
            return self._value
        raise AttributeError(name)

    _value = SetCounting._value
    __deepcopy__ = SetCounting.__deepcopy__


def run_case(rng, mon):
    w = world.World(newtag())
    names = rng.sample(gen.NAMES, rng.randint(1, 6))
    attr, kinds, providers = dict(), dict(), dict()
    for n in names:
        k = kinds[n] = rng.choice(sorted(POOL))
        t = gen.KINDS[k]['type']
        a = attr[n] = dict()
        if t is not str or rng.random() < 0.5:
            a['type'] = t
        if rng.random() < 0.65:
            a['optional'] = True
            r = rng.random()
            if r < 0.55:
                a['default'] = rng.choice(POOL[k])
            elif r < 0.8:
                providers[n] = a['default'] = rng.choice([Counting, Counting, OwnCounting, SetCounting, DynCounting])(rng.sample(POOL[k], 2))
        i = gen.NAMES.index(n)
        if rng.random() < 0.7:
            a['alias'] = rng.choice([set, list, tuple])([gen.ALIASES[i]] + ([gen.ALIASES[i] + '_b'] if rng.random() < 0.4 else []))
    if all(a.get('optional') for a in attr.values()):
        attr[names[0]].pop('optional')
        providers.pop(names[0], None)
        attr[names[0]].pop('default', None)
    decl = dict(attr=attr)
    cls = w.add(decl, kinds, footprint=dict(attr={k: dict(v) for k, v in attr.items()}))
    mon.note('declaration', attr)
    for _ in range(rng.randint(2, 6)):
        # configured defaults, whatever the case; extra values are no source at all
        defaults, extras = dict(), dict()
        for n in names:
            if rng.random() < 0.4:
                defaults[rng.choice([n, n.upper(), n.lower(), n.capitalize(), n.swapcase()])] = rng.choice(POOL[kinds[n]])
            if rng.random() < 0.2:
                extras[n] = rng.choice(POOL[kinds[n]])
            for al in attr[n].get('alias', ()):
                if rng.random() < 0.25:
                    # an alias is not a name for the configured defaults
                    defaults.setdefault(al, rng.choice(POOL[kinds[n]]))
        if len({k.lower() for k in defaults}) < len(defaults):
            continue
        how = rng.random()
        w.set_setup(defaults, extras)
        if how < 0.3 and defaults:
            fp.setup.defaults = dict()
            for k, v in defaults.items():
                fp.setup.defaults[k] = v
        elif how < 0.5:
            fp.setup.defaults = dict(zz='zz')
            fp.setup.defaults.update(defaults)
            w.setup = model.Setup(dict(defaults, zz='zz'), extras)
        desc = dict()
        for n in names:
            al = sorted(attr[n].get('alias', ()))
            opt = attr[n].get('optional')
            r = rng.random()
            if r < 0.35:
                desc[n] = rng.choice(POOL[kinds[n]])
            elif r < 0.5 and opt:
                desc[n] = None
            if al and rng.random() < 0.4:
                desc[rng.choice(al)] = rng.choice(POOL[kinds[n]])
                if opt and len(al) > 1 and rng.random() < 0.5:
                    for x in al:
                        desc.setdefault(x, None)
            elif al and opt and rng.random() < 0.3:
                desc[rng.choice(al)] = None
            if rng.random() < 0.15:
                # an entry that only looks like the attribute or one of its aliases
                x = gen.case_variant(rng, rng.choice([n] + al))
                if x:
                    desc.setdefault(x, rng.choice(POOL[kinds[n]]))
        items = list(desc.items())
        rng.shuffle(items)
        desc = dict(items)
        mon.note('description', desc, 'defaults', defaults, 'extras', extras)
        m = w.classes[cls]
        for via in rng.sample(['find_all', 'construct', 'load', 'couldbe', 'cache'], 3):
            before = {n: p.i for n, p in providers.items()}
            cache = fp.collectors.ResolveCache() if via == 'cache' else None
            got = inputs = None
            coll = w.collector
            coll.report = rng.choice([0, 2, 3])     # a failed query is not evaluated twice
            if via in ('find_all', 'cache'):
                found = mon.ok(via, coll.find_all, dict(desc), resolvecache=cache)
                if found:
                    got, inputs = found[0][1], found[0][2]
            elif via == 'couldbe':
                rd, inp = mon.ok(via, cls.footprint_couldbe, dict(desc))
                if rd:
                    got, inputs = rd, inp
            else:
                o = mon.call(via, *((cls,) if via == 'construct' else (coll.load,)), **desc)
                if o.ok and o.value is not None:
                    got = {n: getattr(o.value, n) for n in attr}
            # What the model says, knowing what the providers answered
            now, ambiguous = dict(), False
            for n, p in providers.items():
                used = p.i - before[n]
                ambiguous = ambiguous or used > 1
                now[n] = p.values[p.i % len(p.values)] if used else None
                if used:
                    mon.ev('provider-evaluations')
            if ambiguous:
                mon.ev('provider-computed-again')
                continue
            attrs = dict(attr)
            for n in providers:
                attrs[n] = dict(attr[n], default=now[n])
            m = model.ClassModel(dict(attr=attrs))
            exp = m.verdict(desc, w.setup)
            if exp.status == 'undefined':
                mon.ev('undefined-skipped')
                continue
            for n in providers:
                if exp.status == 'ok' and exp.sources.get(n) in ('default', 'unset'):
                    mon.check(now[n] is not None, 'the default of {} has not been computed at resolution time'.format(n))
            mon.sig(sorted(attr.items(), key=repr), sorted(desc.items(), key=repr), sorted(defaults.items(), key=repr), via)
            mon.nontrivial()
            if exp.status == 'ok':
                mon.check(got is not None, '{} refused {!r}'.format(via, desc), expected=repr(exp))
                for s in exp.sources.values():
                    mon.ev('source:' + s)
                if via in ('construct', 'load'):
                    exp.values = {k: (None if v is model.UNSET else v) for k, v in exp.values.items()}
                    for k, v in exp.values.items():
                        mon.check(same_value(got[k], v), '{}: {} is {!r}, expected {!r} (from: {})'.format(
                            via, k, got[k], v, exp.sources[k]))
                else:
                    world.check_values(mon, via, got, exp)
                    mon.same(via + ': attributes fed by the query', set(inputs), exp.inputs)
            else:
                mon.check(got is None, '{} accepted {!r} ({!r})'.format(via, desc, exp))
