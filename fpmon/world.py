"""A random world: classes in collectors, a setup, descriptions; and the comparison with the model."""

from . import gen, model
from .lib import fp, is_unset, mkclass, newtag, same_dict, same_value, srepr_values, target, uniq


class World:

    def __init__(self, tag):
        self.tag = tag
        self.classes = dict()       # class -> ClassModel
        self.kinds = dict()         # class -> kinds of attributes
        self.setup = model.Setup()

    @property
    def collector(self):
        return fp.collectors.get(tag=self.tag)

    def add(self, decl, kinds, tags=None, footprint=None, name=None, **kw):
        name = name or uniq('Cls')
        cls = mkclass(name, tags or (self.tag,), footprint if footprint is not None else user_copy(decl), **kw)
        self.classes[cls] = model.ClassModel(decl, name)
        self.kinds[cls] = kinds
        return cls

    def set_setup(self, defaults=None, extras=None, extended=True):
        fp.setup.defaults = dict(defaults or {})
        fp.setup.extended = extended
        ex = dict(extras or {})
        fp.setup.callback = (lambda: dict(ex)) if extras is not None else None
        self.setup = model.Setup(defaults, ex, extended)

    def expected(self, desc, classes=None):
        return {c: m.verdict(desc, self.setup) for c, m in self.classes.items() if classes is None or c in classes}


def user_copy(x):
    """Independent containers (the library may reshape the declarations it is given)."""
    if type(x) is dict:
        return {k: user_copy(v) for k, v in x.items()}
    if type(x) is list:
        return [user_copy(v) for v in x]
    if type(x) is set:
        return {v for v in x}
    return x


def random_world(rng, nmax=5, p_only=0, p_same=0, **kw):
    w = World(newtag())
    decls = list()
    for _ in range(rng.randint(1, nmax) if rng.random() > 0.03 else rng.randint(nmax, 4 * nmax)):
        if decls and rng.random() < 0.5:
            # a variant of a previous declaration
            base, kinds = rng.choice(decls)
            decl = dict(attr={k: (dict(v) if rng.random() < 0.6 else gen.gen_attr(rng, kinds[k], alias=gen.ALIASES[gen.NAMES.index(k)]))
                              for k, v in base['attr'].items()})
            kinds = dict(kinds)
            if all(a.get('optional') for a in decl['attr'].values()):
                a = decl['attr'][sorted(decl['attr'])[0]]
                a.pop('optional', None)
                a.pop('default', None)
        else:
            decl, kinds = gen.gen_decl(rng, **kw)
        if rng.random() < p_only:
            decl['only'] = gen.gen_only(rng, decl, kinds)
        decls.append((decl, kinds))
        same = w.classes and p_same and rng.random() < p_same
        w.add(decl, kinds, name=rng.choice(sorted(c.__name__ for c in w.classes)) if same else None)
    w.decls = decls
    return w


def check_values(mon, what, got, verdict):
    """Compare resolved values with the ones of the model (unset attributes being UNKNOWN)."""
    exp = verdict.values
    mon.ev('oracle-checks')
    if set(got) != set(exp):
        mon.fail('{}: attributes {!r}, expected {!r}'.format(what, sorted(got), sorted(exp)))
    for k in exp:
        if exp[k] is model.UNSET:
            if not is_unset(got[k]):
                mon.fail('{}: attribute {} is {!r} but nothing provides it'.format(what, k, got[k]))
        elif not same_value(got[k], exp[k]):
            mon.fail('{}: attribute {} is {!r} ({}), expected {!r} ({})'.format(
                what, k, got[k], type(got[k]).__name__, exp[k], type(exp[k]).__name__))


def check_object(mon, what, obj, verdict):
    """Compare the attributes read on an object with the ones of the model."""
    exp = verdict.values
    mon.same(what + ': attribute names', list(obj.footprint_attributes), sorted(exp))
    for k in exp:
        got = getattr(obj, k)
        if exp[k] is model.UNSET:
            if got is not None:
                mon.fail('{}: attribute {} reads {!r} but nothing provides it'.format(what, k, got))
        elif not same_value(got, exp[k]):
            mon.fail('{}: attribute {} is {!r} ({}), expected {!r} ({})'.format(
                what, k, got, type(target(got)).__name__, exp[k], type(exp[k]).__name__))
    mon.ev('objects-observed')


def defined(exp):
    return all(v.status != 'undefined' for v in exp.values())


assert srepr_values and same_dict
