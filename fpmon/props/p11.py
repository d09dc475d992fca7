"""P11: clones, copies, pickles, dictionary views and exports against the values of the original object."""

import copy
import gc
import pickle
import re
import weakref

from .. import gen, model, world
from ..lib import fp, importable, is_unset, mkclass, newtag, same_value, target, uniq

KINDS = tuple(k for k in gen.ALLKINDS)


class Exporter:
    """A value with its own exported form."""

    def __init__(self, n):
        self.n = n
        self.bag = [n, [n]]

    def __eq__(self, other):
        return isinstance(other, Exporter) and (self.n, self.bag) == (other.n, other.bag)

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return 'Exporter({!r}, {!r})'.format(self.n, self.bag)

    def export_dict(self):
        return dict(n=self.n, bag=copy.deepcopy(self.bag))


class Exporter2(Exporter):

    def footprint_export(self):
        return ['fp', self.n]


gen.KINDS.setdefault('exporter', dict(type=Exporter, good=[Exporter(1), Exporter(2), Exporter2(3), Exporter2(4)], bad=[]))
gen.KINDS.setdefault('regex', dict(type=fp.FPRegex, good=[fp.FPRegex('a+', re.I), 'b*', fp.FPRegex('c')], bad=[5]))
PICKED = tuple(gen.ALLKINDS) + ('exporter', 'exporter', 'regex', 'fpset', 'fpdict', 'fplist', 'nested')


def regex_image(x):
    return (x.pattern, x.flags)


def agree(a, b, depth=6):
    """Same values (footprint objects and expressions being compared by content)."""
    a, b = target(a), target(b)
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, fp.FPRegex):
        return regex_image(a) == regex_image(b)
    if isinstance(a, fp.FootprintBase):
        if depth == 0:
            return True
        return (a.footprint_attributes == b.footprint_attributes and
                all(agree(getattr(a, n), getattr(b, n), depth - 1) for n in a.footprint_attributes))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(agree(x, y, depth - 1) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(agree(v, b[k], depth - 1) for k, v in a.items())
    return same_value(a, b)


def mutables(x, out=None, depth=8):
    """The ids of every mutable value that can be reached."""
    out = dict() if out is None else out
    x = target(x)
    if depth == 0 or id(x) in out or isinstance(x, (type, str, int, float, bytes, gen.Provider, re.Pattern)) or x is None:
        return out
    if isinstance(x, dict):
        out[id(x)] = x
        for v in x.values():
            mutables(v, out, depth - 1)
    elif isinstance(x, (list, set)):
        out[id(x)] = x
        for v in x:
            mutables(v, out, depth - 1)
    elif isinstance(x, (tuple, frozenset)):
        for v in x:
            mutables(v, out, depth - 1)
    elif isinstance(x, fp.FootprintBase):
        out[id(x)] = x
        for n in x.footprint_attributes:
            mutables(getattr(x, n), out, depth - 1)
    elif hasattr(x, '__dict__') and type(x).__module__.startswith('fpmon'):
        out[id(x)] = x
        for v in x.__dict__.values():
            mutables(v, out, depth - 1)
    return out


def run_case(rng, mon):
    tag = newtag()
    w = world.World(tag)
    # a class whose objects are used as values
    imethods = dict(footprint_export_one=lambda self: 'inner one') if rng.random() < 0.4 else {}
    inner = importable(mkclass(uniq('Inner'), (newtag(),), dict(attr=dict(
        one=dict(), two=dict(type=fp.FPList, optional=True, access='rwx'), three=dict(optional=True))), **imethods))
    kinds, decl = dict(), dict(attr=dict())
    weak = set()
    methods, exported = dict(), dict()
    for n in rng.sample(gen.NAMES, rng.randint(2, 6)):
        k = rng.choice(PICKED)
        access = rng.choice(['rxx', 'rwx', 'rwd'])
        kinds[n] = k
        if k == 'nested':
            decl['attr'][n] = dict(type=inner, optional=rng.random() < 0.3, access=access)
        elif rng.random() < 0.08:
            kinds[n] = 'obj'
            weak.add(n)
            decl['attr'][n] = dict(type=gen.Thing, access=access + '-weak', optional=True)
        else:
            decl['attr'][n] = gen.gen_attr(rng, k, access=access, p_values=0.3, p_remap=0.35)
            decl['attr'][n]['access'] = access
    if all(a.get('optional') for a in decl['attr'].values()):
        decl['attr']['mand'] = dict()
        kinds['mand'] = 'str'
    for a in decl['attr'].values():
        if isinstance(a.get('default'), gen.Provider):
            a['default'] = a['default'].value
    for n in decl['attr']:
        if rng.random() < 0.15:
            exported[n] = rng.choice(['exported ' + n, 'exported ' + n, '', None, 0, [], ['x', n]])
            methods['footprint_export_' + n] = lambda self, x=exported[n]: x
    rises, holder = list(), list()
    watched = rng.random() < 0.3
    if watched:
        def footprint_riseup(self):
            super(holder[0], self).footprint_riseup()
            rises.append((weakref.ref(self), {n: getattr(self, n) for n in self.footprint_attributes}))
        methods['footprint_riseup'] = footprint_riseup
    ctor = rng.random() < 0.3
    cls = importable(w.add(decl, kinds, name=uniq('Cop'), **methods))
    holder.append(cls)
    if ctor:
        def __init__(self, *args, **kw):
            super(sub, self).__init__(*args, **kw)
            self.plain_at_init = [1, 2]

        sub = importable(mkclass(uniq('Sub'), None, dict(attr=dict(more=dict(optional=True))), bases=(cls,), __init__=__init__))
        decl = model.merge(decl, dict(attr=dict(more=dict(optional=True))))
        kinds['more'] = 'str'
        w.classes[sub] = model.ClassModel(decl, sub.__name__)
        w.kinds[sub] = kinds
        cls = sub
    cm = w.classes[cls]
    mon.note('class', cls.__name__, decl, sorted(methods))
    things = [gen.Thing('k1'), gen.Thing('k2')]
    alive = list()
    own = dict(attr={n: a for n, a in decl['attr'].items() if kinds[n] in gen.ALLKINDS and n not in weak})

    def value(n):
        k = kinds[n]
        if k == 'nested':
            o = inner(one=rng.choice(gen.WORDS), **(dict(two=fp.FPList([1, [2, rng.randint(0, 9)]])) if rng.random() < 0.7 else {}))
            alive.append(o)
            return o
        if n in weak:
            return rng.choice(things)
        a = decl['attr'].get(n, {})
        if a.get('values') and rng.random() < 0.7:
            return rng.choice(sorted(a['values'], key=repr))
        return copy.deepcopy(rng.choice(gen.KINDS[k]['good']))

    # creation
    for _ in range(10):
        desc = dict()
        for n, a in decl['attr'].items():
            if not (a.get('optional') and rng.random() < 0.5):
                desc[n] = value(n)
        exp = cm.verdict(desc, w.setup)
        if exp.status == 'ok':
            break
    else:
        mon.ev('no-valid-description')
        return
    if rng.random() < 0.5:
        obj = mon.ok('construct', cls, **desc)
    else:
        obj = mon.ok('construct', cls, dict(desc))
    for n, v in exp.values.items():
        got = getattr(obj, n)
        mon.check(got is None if v is model.UNSET else agree(got, v), 'attribute {} is {!r} instead of {!r}'.format(n, got, v))
    # history of the object: new values, removals
    deleted = False
    for n, a in decl['attr'].items():
        mode = a.get('access', 'rxx')
        if mode.startswith('rw') and rng.random() < 0.25:
            v = value(n)
            if rng.random() < 0.15 and kinds[n] == 'str':
                v = rng.choice(['[1]', 'a[kind]', 'x,y', '[nothing]'])
            if a.get('optional') and not a.get('values') and rng.random() < 0.3:
                v = None        # even if there is a default
            mon.call('set', setattr, obj, n, v)
        elif mode == 'rwd' and rng.random() < 0.08:
            mon.ok('del', delattr, obj, n)
            deleted = True
    plain = dict()
    for n in ('note', 'blob', '_hidden'):
        if rng.random() < 0.5:
            plain[n] = rng.choice([[n, {n: [1]}], {n: [1]}, (n,), n, 0, None, gen.Thing(n)])
            setattr(obj, n, plain[n])
    if ctor and rng.random() < 0.5:
        obj.plain_at_init = [3]
    mon.nontrivial()

    def names(o):
        return list(o.footprint_attributes)

    def image(o):
        return {n: getattr(o, n) for n in names(o)}

    base = image(obj)
    frozen = {n: (repr(v) if not isinstance(v, fp.FootprintBase) else id(v)) for n, v in base.items()}
    mon.sig(decl, sorted(frozen.items()))

    def untouched(what):
        now = {n: (repr(v) if not isinstance(v, fp.FootprintBase) else id(v)) for n, v in image(obj).items()}
        mon.same(what + ': the original object', now, frozen)

    def same_values(what, o, ref):
        mon.check(type(o) is type(ref), '{}: {!r} instead of {!r}'.format(what, type(o), type(ref)))
        mon.check(o is not ref, what + ': same object')
        mon.same(what + ': attributes', names(o), names(ref))
        for n in names(ref):
            mon.ev('oracle-checks')
            a, b = getattr(o, n), getattr(ref, n)
            if not agree(a, b):
                mon.fail('{}: attribute {} is {!r} ({}) instead of {!r} ({})'.format(what, n, a, type(a), b, type(b)))
        mon.same(what + ': unset attributes', sorted(o.footprint_undefs()), sorted(ref.footprint_undefs()))

    def views(what, o):
        shallow = mon.ok('shallow', o.footprint_as_shallow_dict)
        deep = mon.ok('deep', o.footprint_as_dict)
        export = mon.ok('export', o.footprint_export)
        for lab, d in (('shallow view', shallow), ('deep view', deep), ('export', export)):
            mon.check(type(d) is dict, '{}: {} is {!r}'.format(what, lab, d))
            mon.same('{}: names in the {}'.format(what, lab), sorted(d), names(o))
        for n in names(o):
            v = getattr(o, n)
            mon.check(shallow[n] is v or target(shallow[n]) is target(v), '{}: {} is {!r} in the shallow view'.format(what, n, shallow[n]))
            mon.check(agree(deep[n], v), '{}: {} is {!r} in the deep view instead of {!r}'.format(what, n, deep[n], v))
            if 'footprint_export_' + n in methods:
                e = exported[n]
            elif isinstance(v, fp.FPSet):
                e = list(v)
                mon.check(type(export[n]) is list and len(export[n]) == len(e) and set(export[n]) == set(e),
                          '{}: {} is exported as {!r} instead of {!r}'.format(what, n, export[n], v))
                continue
            elif isinstance(v, fp.FPRegex):
                e = regex_image(v)
            elif isinstance(v, fp.FootprintBase):
                e = {m: 'inner one' if m == 'one' and imethods else getattr(v, m) for m in v.footprint_attributes}
            elif isinstance(target(v), Exporter2):
                e = ['fp', v.n]
            elif isinstance(target(v), Exporter):
                e = dict(n=v.n, bag=v.bag)
            else:
                e = v
            mon.check(agree(export[n], e), '{}: {} is exported as {!r} instead of {!r}'.format(what, n, export[n], e))
        for n in names(o):
            mon.check(o.footprint_has_attribute(n), '{}: no attribute {}'.format(what, n))
        mon.check(not o.footprint_has_attribute('nosuchattribute'), what + ': an unexpected attribute')
        mon.same(what + ': unset attributes', sorted(o.footprint_undefs()), sorted(n for n in names(o) if getattr(o, n) is None))
        mine = mutables(o)
        for lab, d in (('deep view', deep), ('export', export)):
            shared = [x for i, x in mutables(list(d.values())).items() if i in mine]
            mon.check(not shared, '{}: values shared between the object and the {}: {!r}'.format(what, lab, shared))
        shallow['bonus'] = 1
        shallow.pop(names(o)[0] if names(o) else 'bonus')
        deep.clear()
        untouched(what + ' (modified views)')
        mon.ev('views')

    views('original', obj)
    for n in names(obj):
        if decl['attr'].get(n, dict()).get('access') == 'rwd' and rng.random() < 0.15:
            # once the views were taken
            mon.ok('del', delattr, obj, n)
            mon.ev('deleted-after-views')
            frozen.pop(n)
            base.pop(n)
            deleted = True
            views('after a deletion', obj)
    objects = [obj]
    for step in range(rng.randint(3, 9)):
        src = rng.choice(objects)
        op = rng.choice(['clone', 'clone', 'fullclone', 'copy', 'deepcopy', 'pickle', 'pickle', 'extra', 'extra', 'badextra', 'almost'])
        what = '{:d}:{}'.format(step, op)
        mon.trace.append(what)
        if rng.random() < 0.25:
            # an attribute that is unset remains so in the copies, whatever the defaults are now
            w.set_setup(rng.choice([{}, gen.gen_defaults(rng, [(own, kinds)], p=0.8)]))
            what += ' (new defaults)'
            mon.ev('new-defaults')
        if op in ('clone', 'fullclone'):
            if deleted:
                continue
            new = mon.ok(op, src.footprint_clone, full=(op == 'fullclone'), extra=rng.choice([None, dict(), dict(foreign=1)]))
            same_values(what, new, src)
            pub = {n for n in src.__dict__ if not n.startswith('_')}
            for n in ('note', 'blob'):
                if op == 'fullclone':
                    mon.check(hasattr(new, n) == (n in pub), '{}: plain member {}'.format(what, n))
                    if n in pub:
                        mon.check(getattr(new, n) == getattr(src, n), '{}: plain member {} is {!r}'.format(what, n, getattr(new, n)))
                else:
                    mon.check(not hasattr(new, n), '{}: plain member {} in a simple clone'.format(what, n))
            if ctor and op == 'fullclone':
                mon.same(what + ': plain member', new.plain_at_init, src.plain_at_init)
            mon.check(not hasattr(new, '_hidden'), what + ': hidden member copied')
        elif op in ('copy', 'deepcopy', 'pickle'):
            if weak and op != 'copy':
                continue
            if op == 'pickle':
                proto = rng.randint(0, pickle.HIGHEST_PROTOCOL)
                if rng.random() < 0.3:
                    # twice the same object in the pickle
                    new, again = mon.ok('pickle', lambda: pickle.loads(pickle.dumps((src, src), proto)))
                    mon.check(new is again, what + ': identity lost')
                else:
                    new = mon.ok('pickle', lambda: pickle.loads(pickle.dumps(src, proto)))
            else:
                new = mon.ok(op, getattr(copy, op), src)
            same_values(what, new, src)
            mon.same(what + ': plain members', sorted(n for n in new.__dict__ if not n.startswith('__')),
                     sorted(n for n in src.__dict__ if not n.startswith('__')))
            for n in plain:
                if n in src.__dict__:
                    mon.same(what + ': plain member ' + n, getattr(new, n), getattr(src, n))
            if op != 'copy':
                mine = mutables(src)
                shared = [x for i, x in mutables(new).items() if i in mine]
                mon.check(not shared, '{}: values shared with the original: {!r}'.format(what, shared))
            if not deleted:
                # the unset attributes are still known as such
                d = {n: v for n, v in desc.items() if n not in weak}
                if all(n in decl['attr'] for n in d) and not any(isinstance(v, str) and '[' in v for v in d.values()):
                    o1 = mon.call('compatible', src.footprint_compatible, d)
                    o2 = mon.call('compatible', new.footprint_compatible, d)
                    if not any(isinstance(v, (fp.FootprintBase, fp.FPRegex)) for v in image(src).values()):
                        mon.same(what + ': compatibility with {!r}'.format(d), (o2.ok, o2.value), (o1.ok, o1.value))
        elif op in ('extra', 'badextra'):
            if deleted:
                continue
            extra = dict()
            for n in decl['attr']:
                if rng.random() < 0.35:
                    extra[n] = value(n)
                    if kinds[n] == 'str' and rng.random() < 0.3:
                        extra[n] = rng.choice(['[{}]-x'.format(rng.choice(sorted(decl['attr']))), '[foreign#q]', '[more#r]', '[nothing]'])
                    elif decl['attr'][n].get('optional') and rng.random() < 0.1:
                        extra[n] = None
            if op == 'badextra' and extra:
                n = rng.choice(sorted(extra))
                if n not in weak and kinds[n] != 'nested' and gen.KINDS[kinds[n]]['bad']:
                    extra[n] = rng.choice(gen.KINDS[kinds[n]]['bad'])
            if rng.random() < 0.2:
                extra['foreign'] = 'f'
            cur = {n: (model.UNSET if getattr(src, n) is None else getattr(src, n)) for n in names(src)}
            try:
                r = model.Resolution(cm.attrs, dict(cur, **extra), w.setup)
                r._final.update({n: v for n, v in cur.items() if n not in extra})
                want = r.run()
                status = 'ok'
            except model.Undefined:
                continue
            except (model.Reject, model.Cycle, model.Unreachable):
                status = 'refused'
            before = dict(extra)
            o = mon.call('clone-extra', src.footprint_clone, full=rng.random() < 0.3, extra=extra)
            mon.check(set(before) == set(extra) and all(before[k] is extra[k] for k in extra), what + ': extra modified')
            mon.sig(what, sorted(map(str, extra.items())), status)
            if status == 'refused':
                mon.check(not o.ok, '{}: clone with {!r} should have been refused'.format(what, extra))
                mon.ev('clones-refused')
                continue
            mon.check(o.ok, '{}: clone with {!r} failed: {!r}'.format(what, extra, o))
            new = o.value
            mon.check(type(new) is type(src) and new is not src, what + ': not a new object of this class')
            mon.same(what + ': attributes', names(new), sorted(want))
            for n, v in want.items():
                got = getattr(new, n)
                mon.check(got is None if is_unset(v) else agree(got, v), '{}: clone with {!r}: attribute {} is {!r} instead of {!r}'
                          .format(what, extra, n, got, v))
            mon.ev('clones-extra')
            views(what, new)
            untouched(what)
            continue
        else:
            if weak or deleted or 'nested' in kinds.values():
                continue
            extra = {n: value(n) for n in decl['attr'] if rng.random() < 0.2}
            d = dict({n: v for n, v in image(src).items()}, **extra)
            if any(isinstance(v, str) and '[' in v for v in d.values()):
                continue
            exps = w.expected(d)
            if not world.defined(exps):
                continue
            okset = {c for c, v in exps.items() if v.status == 'ok'}
            new = mon.ok('almost', w.collector.almost_clone, src, **extra)
            mon.check((new is None) == (not okset), '{}: {!r}, candidates {!r}'.format(what, new, okset))
            if new is not None:
                mon.check(type(new) in okset, what + ': a {!r}'.format(type(new)))
                for n, v in exps[type(new)].values.items():
                    got = getattr(new, n)
                    mon.check(got is None if is_unset(v) else agree(got, v), '{}: attribute {} is {!r} instead of {!r}'.format(what, n, got, v))
            untouched(what)
            continue
        mon.ev('copies')
        if watched:
            seen = [v for r, v in rises if r() is new]
            mon.same(what + ': number of objects seen rising up', len(seen), 1)
            mon.same(what + ': attributes of the object rising up', sorted(seen[0]), names(new))
            for n, v in seen[0].items():
                mon.check(v is getattr(new, n) or target(v) is target(getattr(new, n)), '{}: {} is {!r} when the object rises up'.format(what, n, v))
            mon.ev('objects-rising')
        untouched(what)
        views(what, new)
        objects.append(new)
        # the copy has its own life
        rw = [n for n in names(new) if decl['attr'][n].get('access', 'rxx').startswith('rw')]
        if rw and rng.random() < 0.4:
            n = rng.choice(sorted(rw))
            before = [image(o) for o in objects]
            if mon.call('set', setattr, new, n, value(n)).ok:
                for o, b in zip(objects[:-1], before[:-1]):
                    for m, v in b.items():
                        mon.check(getattr(o, m) is v or target(getattr(o, m)) is target(v),
                                  '{}: setting {} on the copy changed {} on another object'.format(what, n, m))
            untouched(what + ' then set')


assert gc and weakref and newtag
