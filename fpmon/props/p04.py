"""P04: the best candidate is selected by priority, then by number of inputs fed."""

from .. import gen, world
from ..lib import fp, mkclass, newtag, priorities, uniq  # noqa: F401


def shuffle_levels(rng, mon, used):
    """A random change of the order of the levels (the ones in use are kept)."""
    top = priorities.top
    levels = list(top.levels)
    op = rng.choice(['rerank', 'up', 'down', 'top', 'bottom', 'insert', 'before', 'after', 'remove', 'reset', 'extend',
                     'freeze'])
    one, two = rng.choice(levels), rng.choice(levels)
    mon.ev('level-operations')
    if op == 'rerank':
        top.rerank(one, rng.randint(-3, 3))
    elif op in ('up', 'down', 'top', 'bottom'):
        getattr(top.level(one), op)()
    elif op in ('insert', 'before', 'after') and len(levels) < 12:
        new = rng.choice([uniq('LV'), one])
        kw = rng.choice([dict(), dict(after=two), dict(before=two)])
        if new.upper() != two.upper():
            if op == 'insert':
                top.insert(new, **kw)
            elif op == 'before':
                priorities.set_before(two, new)
            else:
                priorities.set_after(two, new)
    elif op == 'remove' and one not in used and one not in ('NONE', 'DEFAULT', 'TOOLBOX', 'DEBUG'):
        top.remove(one)
    elif op == 'reset' and used <= {'NONE', 'DEFAULT', 'TOOLBOX', 'DEBUG'}:
        top.reset()
    elif op == 'extend':
        top.extend(one)
    elif op == 'freeze':
        top.freeze('here')
        top.rerank(one, rng.randint(-2, 2))
        if rng.random() < 0.5:
            top.restore('here')
    mon.note('levels after', op, one, two, top.levels)


class Abroad:
    """Classes of the same packages in other collectors."""

    def __init__(self, rng, mon, modules):
        self.level, self.tags = dict(), [newtag() for _ in range(rng.randint(1, 2))]
        self.pack = dict()
        for i in range(rng.randint(1, 4)):
            lev, mod = rng.choice(priorities.top.levels + ('DEFAULT',) * 3), rng.choice(modules)
            c = mkclass(uniq('Abr'), [rng.choice(self.tags)], dict(attr=dict(kind=dict()), priority=dict(level=priorities.top.level(lev))), module=mod)
            self.level[c], self.pack[c] = lev, mod
        mon.ev('other-collectors')

    def reset(self, pk, lev):
        for c in self.level:
            if '{}.{}'.format(self.pack[c], c.__name__).startswith(pk):
                self.level[c] = lev

    def check(self, mon):
        for t in self.tags:
            here = {c: priorities.top.levels.index(x) for c, x in self.level.items() if c._collector[0] == t}
            obj = mon.ok('load', fp.load, tag=t, kind='any')
            mon.check((obj is None) == (not here), 'other collector: {!r}'.format(obj))
            if here:
                mon.check(here.get(type(obj)) == max(here.values()), 'other collector: {!r} is selected among {!r}'.format(obj, here))


def run_case(rng, mon):
    abroad, when = None, rng.choice([None, None, None, 'before', 'after'])
    w = world.World(newtag())
    if rng.random() < 0.5:
        for _ in range(rng.randint(1, 3)):
            priorities.top.insert(uniq('Lev'), **rng.choice([dict(), dict(after='default'), dict(before='debug')]))
    base, kinds = gen.gen_decl(rng, nmax=4, kinds=('str', 'int', 'float', 'span', 'bool'), p_remap=0.1, p_outcast=0.1, p_values=0.3)
    modules = ['alpha', 'alpha.one', 'alpha.one.two.three', 'alpha.One', 'alphabeta', 'beta', 'beta.two', 'al', '__main__', 'x_1.alpha']
    level, pack = dict(), dict()
    if when == 'before':
        abroad = Abroad(rng, mon, modules)
    decls = [(base, kinds)]
    many = ['m{:02d}'.format(i) for i in range(rng.randint(5, 30))] if rng.random() < 0.12 else []
    for _ in range(rng.randint(1, 7) if rng.random() < 0.95 else rng.randint(8, 24)):
        decl = dict(attr={k: dict(v) for k, v in base['attr'].items()})
        kd = dict(kinds)
        # more optional attributes for some of them: more inputs are used
        for extra in rng.sample(['w1', 'w2', 'w3', 'w4'], rng.randint(0, 3)):
            decl['attr'][extra] = dict(optional=True, **rng.choice([{}, dict(default='d'), dict(alias=['al_' + extra])]))
            kd[extra] = 'str'
        if many and rng.random() < 0.5:
            for extra in many[:rng.randint(1, len(many))]:
                decl['attr'][extra] = dict(optional=True)
                kd[extra] = 'str'
        if rng.random() < 0.2 and len(decl['attr']) > 1:
            victim = rng.choice([k for k, a in decl['attr'].items() if a.get('optional')] or [''])
            decl['attr'].pop(victim, None)
        lev = rng.choice(priorities.top.levels + ('DEFAULT',) * 3)
        foot = world.user_copy(decl)
        if lev != 'DEFAULT' or rng.random() < 0.3:
            foot['priority'] = dict(level=priorities.top.level(lev))
        mod = rng.choice(modules)
        bases = None
        if w.classes and rng.random() < 0.2:
            # a subclass: same priority as its parent unless stated otherwise
            parent = rng.choice(sorted(w.classes, key=lambda c: c.__name__))
            if all(k in decl['attr'] for k in w.classes[parent].decl['attr']):
                bases = (parent,)
                if 'priority' not in foot:
                    lev = level[parent]
        if rng.random() < 0.3:
            foot = fp.Footprint(foot)
            lev = foot.level.tag
        same = w.classes and not bases and rng.random() < 0.04
        c = w.add(decl, kd, footprint=foot, module=mod, bases=bases,
                  name=rng.choice(sorted(x.__name__ for x in w.classes)) if same else None)
        if bases:
            # full merge: the model only needs the effective declaration
            from .. import model
            pdecl = model.finalised(w.classes[bases[0]].decl)
            own = model.finalised(decl) if isinstance(foot, fp.Footprint) else decl
            w.classes[c] = model.ClassModel(model.merge(pdecl, own), c.__name__)
        level[c], pack[c] = lev, mod
        decls.append((decl, kd))
    mon.note('classes', {c.__name__: (level[c], pack[c], m.decl) for c, m in w.classes.items()})
    coll = w.collector
    if when == 'after':
        abroad = Abroad(rng, mon, modules)
    coll.report = rng.choice([0, 1, 1, 2, 3])
    for _ in range(rng.randint(2, 7)):
        r = rng.random()
        if r < 0.35:
            shuffle_levels(rng, mon, set(level.values()) | (set(abroad.level.values()) if abroad else set()))
        elif r < 0.5:
            pk, lev = rng.choice(modules + ['alp', 'gamma', 'alpha.', 'alpha.one.t', 'Alpha', '', 'one'] + sorted(pack[c] + '.' + c.__name__ for c in pack)[:2]), rng.choice(priorities.top.levels)
            name = rng.choice([lev, lev.lower(), priorities.top.level(lev)])
            if rng.random() < 0.5:
                coll.reset_package_level(pk, name)
            else:
                fp.reset_package_priority(pk, name)
                if abroad:
                    abroad.reset(pk, lev)
            for c in level:
                if '{}.{}'.format(pack[c], c.__name__).startswith(pk):
                    level[c] = lev
            mon.ev('package-levels-reset')
            mon.note('package', pk, 'set at level', lev)
        elif r < 0.6:
            w.set_setup(gen.gen_defaults(rng, decls, p=0.9))
            if rng.random() < 0.5:
                fp.setup.defaults['w1'] = 'x'
                w.setup.defaults['w1'] = 'x'
        if abroad and rng.random() < 0.5:
            abroad.check(mon)
        decl, kd = rng.choice(decls)
        desc = gen.gen_desc(rng, decl, kd, p_good=0.98, p_none=0.02, p_nulltext=0.01)
        for extra in ('w1', 'w2', 'w3', 'w4', 'al_w1'):
            if rng.random() < 0.4:
                desc[extra] = rng.choice(['v', None])
        if many and rng.random() < 0.8:
            desc.update((extra, 'v') for extra in many)
        exp = w.expected(desc)
        if not world.defined(exp):
            mon.ev('undefined-skipped')
            continue
        ok = {c: (priorities.top.levels.index(level[c]), len(v.inputs)) for c, v in exp.items() if v.status == 'ok'}
        mon.sig(sorted((c.__name__, level[c], repr(sorted(exp[c].inputs or ()))) for c in level), priorities.top.levels,
                sorted(desc))
        how = rng.choice(['load', 'find_best', 'pickup', 'fpload', 'default', 'cache'])
        if rng.random() < 0.2:
            coll.report = rng.choice([0, 1, 2, 3])
        if how == 'load':
            obj = mon.ok(how, coll.load, **desc)
        elif how == 'find_best':
            obj = mon.ok(how, coll.find_best, dict(desc))
        elif how == 'cache':
            obj = mon.ok(how, coll.find_best, dict(desc), resolvecache=fp.collectors.ResolveCache())
        elif how == 'pickup':
            obj = mon.ok(how, fp.pickup, dict(desc, tag=w.tag))[w.tag]
        elif how == 'default':
            obj = mon.ok(how, fp.default, tag=w.tag, **desc)
        else:
            obj = mon.ok(how, fp.load, tag=w.tag, **desc)
        if not ok:
            mon.check(obj is None, '{} returned {!r} whereas there is no candidate'.format(how, obj))
            mon.ev('nothing')
            continue
        mon.check(obj is not None, '{} returned nothing, candidates: {}'.format(how, {c.__name__: x for c, x in ok.items()}))
        best = max(ok.values())
        mon.note('query', desc, how, {c.__name__: x for c, x in ok.items()}, '->', type(obj).__name__)
        mon.check(type(obj) in ok, 'the class {!r} is not a candidate'.format(type(obj)))
        mon.check(ok[type(obj)] == best, '{}: {} {} was selected, the best are {} {}; levels {}'.format(
            how, type(obj).__name__, ok[type(obj)], [c.__name__ for c, x in ok.items() if x == best], best, priorities.top.levels))
        world.check_object(mon, how, obj, exp[type(obj)])
        if len(ok) > 1:
            mon.nontrivial()
            mon.ev('choices')
            if len({x[0] for x in ok.values()}) > 1:
                mon.ev('choices-between-levels')
            else:
                mon.ev('choices-on-inputs')
        # An instance may be alive now: a later default lookup could return it
        del obj
