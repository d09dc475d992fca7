"""
Reference model of the footprint resolution, written from the documentation (independent of the code).

A class is described by its *declaration*: dict(attr={name: dict(...)}, only=dict(...)), as given by the
user, possibly the merge of several declarations (see :func:`merge`).
"""

import re

from .lib import FpMeta, fp, target

PATTERN = re.compile(r'\[(\w+)(?::+([:\w]+))?(?:#(\w+))?(?:%([^\]]+))?\]')

UNSET = fp.UNKNOWN
Builtin = type(''.upper)


class Reject(Exception):
    """The class does not accept the description."""

    def __init__(self, attr, why):
        super().__init__(attr, why)
        self.attr, self.why = attr, why


class Cycle(Exception):
    pass


class Unreachable(Exception):
    pass


class Undefined(Exception):
    """The property says nothing about this situation."""


def convert_declared(v, ktype, args):
    return v if isinstance(v, ktype) else ktype(v, **args)


def norm_attr(decl):
    """Normalise the declaration of an attribute."""
    d = dict(decl)
    n = dict(
        type=d.get('type', str),
        args=dict(d.get('args', {})),
        optional=bool(d.get('optional', False)),
        default=d.get('default', None),
        alias=list(d.get('alias', ())),
        isclass=bool(d.get('isclass', False)),
        access=d.get('access', 'rxx'),
        info=d.get('info', None),
        doc_visibility=str(getattr(d.get('doc_visibility', 'DEFAULT'), 'tag', d.get('doc_visibility', 'DEFAULT'))),
        doc_zorder=min(100, max(-100, d.get('doc_zorder', 0))),
    )
    remap = dict(d.get('remap', {}))
    auto = remap.pop('autoremap', None)
    if auto is not None:
        values = list(d['values'])
        if 'first' in ((auto,) if isinstance(auto, str) else tuple(auto)):
            for x in values[1:]:
                remap[x] = values[0]
    n['remap'] = remap
    for k in ('values', 'outcast'):
        # (the restrictions of a class valued attribute are classes)
        n[k] = [v if n['isclass'] else convert_declared(v, n['type'], n['args']) for v in d.get(k, ())]
    return n


class Setup:
    """What the model knows of the setup."""

    def __init__(self, defaults=None, extras=None, extended=True):
        self.defaults = {k.lower(): v for k, v in (defaults or {}).items()}
        self.extras = dict(extras or {})
        self.extended = extended

    def has(self, name):
        return name.lower() in self.defaults

    def get(self, name):
        return self.defaults[name.lower()]


class Resolution:
    """The resolution of a description for a given (normalised) set of attributes."""

    def __init__(self, attrs, desc, setup):
        self.attrs, self.desc, self.setup = attrs, desc, setup
        self.raw = dict()
        self.inputs = set()
        self.sources = dict()
        self.missing = set()
        for name, a in attrs.items():
            self._source(name, a)
        self._final = dict()
        self._pending = list()
        self._substituted = False
        self.rejected = dict()
        self.extras = dict(setup.extras)
        for v in desc.values():
            if isinstance(v, fp.FootprintBase):
                for k in v.footprint_attributes:
                    self.extras[k] = getattr(v, k)
        for k, v in desc.items():
            if k not in self.extras and k not in self.raw:
                self.extras[k] = v
        if setup.extended:
            for k, v in setup.defaults.items():
                if k not in self.extras and k not in self.raw:
                    self.extras[k] = v

    def _source(self, name, a):
        opt = a['optional']
        if name in self.desc and not (opt and self.desc[name] is None):
            value, src = self.desc[name], 'name'
        else:
            given = [(x, self.desc[x]) for x in a['alias']
                     if x in self.desc and not (opt and self.desc[x] is None)]
            if given:
                if any(x[1] is not given[0][1] and not (type(x[1]) is type(given[0][1]) and repr(x[1]) == repr(given[0][1]))
                       for x in given[1:]):
                    raise Undefined('several aliases')
                value, src = given[0][1], 'alias'
            elif self.setup.has(name):
                value, src = self.setup.get(name), 'setup'
            elif opt:
                value, src = a['default'], 'default'
                if value is None:
                    value, src = UNSET, 'unset'
                elif hasattr(value, 'footprint_value'):
                    value = value.footprint_value()
            else:
                value, src = None, 'missing'
        self.raw[name] = value
        self.sources[name] = src
        if src in ('name', 'alias', 'setup') and value is not None:
            self.inputs.add(name)
        if value is None:
            self.missing.add(name)

    # substitution

    def _member(self, v, path):
        for part in re.split(':+', path):
            v = getattr(v, part, None)
            if v is None:
                return None
            if callable(v):
                v = v() if isinstance(v, Builtin) else v(dict(self.raw, **self._final), self.extras)
                if v is None:
                    return None
        return v

    @staticmethod
    def _format(v, fmt):
        if not fmt:
            return str(v)
        if ':' in fmt or '!' in fmt:
            m = re.match(r'^((?:\.\w+)*)(?:!(\w))?(?::(.*))?$', fmt)
            if not m:
                raise Undefined('format ' + fmt)
            for part in [x for x in m.group(1).split('.') if x]:
                v = getattr(v, part)
            if callable(v):
                v = v()
            if m.group(2):
                v = dict(r=repr, s=str, a=ascii)[m.group(2)](v)
            return format(v, m.group(3) or '')
        return format(v() if callable(v) else v, fmt)

    def substitute(self, text, who):
        guard = 0
        while isinstance(text, str):
            m = PATTERN.search(text)
            if not m:
                break
            self._substituted = True
            guard += 1
            if guard > 900:
                raise Cycle(who)
            name, path, fallback, fmt = m.groups()
            if name in self.raw:
                v = self.final(name)
                if v is UNSET:
                    raise Undefined('reference to an unset attribute')
                if v is None:
                    raise Undefined('reference to a rejected attribute')
            elif name in self.extras:
                v = self.extras[name]
            elif fallback:
                text = text[:m.start()] + fallback + text[m.end():]
                continue
            else:
                raise Unreachable(name)
            if path:
                v = self._member(v, path)
                if v is None:
                    return None
            text = text[:m.start()] + self._format(v, fmt) + text[m.end():]
        return text

    # final value of an attribute

    def final(self, name):
        if name in self._final:
            return self._final[name]
        if name in self._pending:
            raise Cycle(name)
        self._pending.append(name)
        try:
            value = self.substitute(self.raw[name], name)
        finally:
            self._pending.pop()
        try:
            value = self.accept(name, value)
        except Reject as r:
            self.rejected.setdefault(name, r.why)
            value = None
        self._final[name] = value
        return value

    def accept(self, name, value):
        a = self.attrs[name]
        if value is None:
            raise Reject(name, 'missing')
        value = remapped(value, a['remap'])
        if value is not UNSET:
            if a['isclass']:
                if not (isinstance(value, type) and issubclass(value, a['type'])):
                    raise Reject(name, 'subclass')
            elif not isinstance(value, a['type']):
                try:
                    value = a['type'](value, **a['args'])
                except (ValueError, TypeError, ArithmeticError, fp.FootprintException):
                    raise Reject(name, 'reclass')
            if a['values'] and not any(bool(x == value) for x in a['values']):
                raise Reject(name, 'outside')
            if any(bool(x == value) for x in a['outcast']):
                raise Reject(name, 'outcast')
            if (isinstance(value, str) and value == 'None') or value is None:
                raise Reject(name, 'invalid')
        return value

    def run(self):
        """Return dict(name=value), raise Reject, Cycle, Unreachable or Undefined."""
        if self.missing:
            for n in self.missing:
                self.rejected.setdefault(n, 'missing')
            # Anything else is not even considered (but for null strings)
            for n, v in self.raw.items():
                if isinstance(v, str) and v == 'None':
                    self.rejected.setdefault(n, 'invalid')
            raise Reject(sorted(self.missing)[0], 'missing')
        errors = list()
        for name in self.attrs:
            try:
                self.final(name)
            except (Cycle, Unreachable) as e:
                errors.append(e)
        if errors:
            if self.rejected:
                raise Undefined('both rejected and in error')
            if len({type(e) for e in errors}) > 1:
                raise Undefined('several kinds of errors')
            raise errors[0]
        if self.rejected:
            n = sorted(self.rejected)[0]
            raise Reject(n, self.rejected[n])
        return dict(self._final)


def hashable(x):
    try:
        hash(x)
    except TypeError:
        return False
    return True


def remapped(value, remap):
    seen = list()
    while hashable(value) and value in remap:
        if any(value is s or value == s for s in seen):
            if len(seen) > 1:
                raise Undefined('circular remap')
            break
        seen.append(value)
        value = remap[value]
    return value


def only_ok(only, values, setup):
    """Do the *only* rules hold? Also gives the failing rule names."""
    failing = dict()
    for rule, alts in only.items():
        if isinstance(alts, str) or not hasattr(alts, '__iter__'):
            alts = (alts,)
        name, mode = rule, 'eq'
        for m in ('after', 'before'):
            if rule.startswith(m + '_'):
                name, mode = rule[len(m) + 1:], m
        if name in values:
            v = values[name]
        elif setup.has(name):
            v = setup.get(name)
        else:
            v = None
        if v is None or v is UNSET:
            failing[name] = 'notfound'
            continue
        ok = False
        for x in alts:
            if mode == 'after':
                ok = ok or bool(v >= x)
            elif mode == 'before':
                ok = ok or bool(v < x)
            elif hasattr(x, 'match'):
                ok = ok or x.match(v) is not None
            else:
                ok = ok or bool(v == x)
        if not ok:
            failing[name] = 'notmatch'
    return failing


class Verdict:
    """What the model expects from a class for a description."""

    def __init__(self, status, values=None, inputs=None, reasons=None, sources=None):
        self.status = status            # ok, reject, cycle, unreachable, undefined
        self.values, self.inputs, self.reasons, self.sources = values, inputs, reasons or {}, sources or {}

    def __repr__(self):
        return '<{} {} {}>'.format(self.status, self.values, self.reasons)


class ClassModel:
    """A class, according to its full declaration."""

    def __init__(self, decl, name=None):
        self.name = name
        self.decl = decl
        self.attrs = {k: norm_attr(a) for k, a in decl.get('attr', {}).items()}
        self.only = dict(decl.get('only', {}))

    def verdict(self, desc, setup):
        try:
            r = Resolution(self.attrs, desc, setup)
        except Undefined as e:
            return Verdict('undefined', reasons={'': str(e)})
        try:
            values = r.run()
        except Reject:
            return Verdict('reject', reasons=dict(r.rejected), sources=r.sources)
        except Cycle:
            return Verdict('cycle')
        except Unreachable:
            return Verdict('unreachable')
        except Undefined as e:
            return Verdict('undefined', reasons={'': str(e)})
        try:
            failing = only_ok(self.only, values, setup)
        except (TypeError, ValueError) as e:  # values that cannot be compared
            return Verdict('undefined', reasons={'': str(e)})
        if failing:
            return Verdict('only', values=values, reasons=failing, sources=r.sources)
        return Verdict('ok', values=values, inputs=set(r.inputs), sources=r.sources)


def merge(*decls):
    """Merge declarations: the last ones are the most specific."""
    out = dict()
    for d in decls:
        _merge(out, d)
    return out


def _merge(out, d):
    for k, v in d.items():
        if type(v) is dict and type(out.get(k)) is dict:
            _merge(out[k], v)
        elif type(v) is dict:
            out[k] = dict()
            _merge(out[k], v)
        else:
            out[k] = v


def finalised(decl, nodefault=False):
    """A declaration as seen through a footprint object or a parent class: everything is set."""
    out = merge(decl)
    for name, a in out.setdefault('attr', {}).items():
        n = norm_attr(a)
        a.pop('remap', None)
        a.update(optional=n['optional'], default=n['default'], alias=n['alias'], access=n['access'],
                 remap=n['remap'], values=n['values'], outcast=n['outcast'],
                 doc_visibility=n['doc_visibility'], doc_zorder=n['doc_zorder'])
    if not nodefault:
        out.setdefault('info', 'Not documented')
        out.setdefault('only', dict())
        out.setdefault('priority', dict()).setdefault('level', 'DEFAULT')
    return out


assert FpMeta and target
