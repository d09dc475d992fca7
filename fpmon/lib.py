"""Access to the code under test (public interface only) and helpers shared by the properties."""

import contextlib
import gc
import io
import logging
import sys
import types
import weakref

import footprints as fp
from footprints import collectors, config, doc, priorities, proxies, reporting, util  # noqa: F401
from footprints import stdtypes  # noqa: F401

logging.disable(logging.CRITICAL)

_counter = [0]
_mon = [None]

FpMeta = type(fp.FootprintBase)


def reset(mon, idx):
    """A well defined global state before each case."""
    _mon[0] = mon
    _counter[0] = 0
    CASEMOD.__dict__.clear()
    CASE[0] = idx
    s = fp.setup
    s.defaults = dict()
    s.callback = None
    s.extended = True
    s.fatal = True
    s.fastmode = False
    s.fastkeys = ('kind',)
    s.report = config.ONERROR_REPORTING
    s.report_style = config.RAW_REPORTINGSTYLE
    s.lreport_len = config.DFLT_MAXLEN_LIGHT_REPORTING
    s.docstrings = 0
    s.shortnames = False
    s.nullreport.clear()
    priorities.top.reset()
    doc.visibility.reset()
    collectors.Collector.tag_clear()
    reporting.FootprintLog.tag_clear()
    collectors.get(tag='garbage').add(fp.FootprintBase, abstract=True)
    if idx % 64 == 0:
        gc.collect()


CASE = [0]


CASEMOD = types.ModuleType('fpmoncase')
sys.modules['fpmoncase'] = CASEMOD


def importable(cls):
    """Make this class reachable by name (pickle)."""
    setattr(CASEMOD, cls.__name__, cls)
    return cls


def uniq(prefix):
    """A name which is unique in the worker process."""
    _counter[0] += 1
    return '{:s}{:d}x{:d}'.format(prefix, CASE[0], _counter[0])


def newtag():
    """A collector's name (lower case, without any final *s*)."""
    tag = uniq('tag') + 'z'
    style = TAGS[sum(map(ord, tag)) * 7 % len(TAGS)]
    return style.format(tag)


TAGS = ['{}', '{}', '{}', 'ashes{}', 'mass_{}_classe', 'averyveryveryverylongname{}', '{}longsuffixesandmore_', 's{}', '{}9', '{}sss_']


PLAIN = {'__len__', '__bool__', '__slots__'}


def _falsy_len(self):
    return 0


def _falsy_bool(self):
    return False


def mkclass(name, tags, footprint, bases=None, **kw):
    """Define a footprint-based class (the way a ``class`` statement does)."""
    ns = dict(__module__=kw.pop('module', 'fpmoncase'), _footprint=footprint)
    if tags is not None:
        ns['_collector'] = tags if isinstance(tags, list) else tuple(tags)
    ns.update(kw)
    odd = sum(map(ord, name)) * 7 % 10
    if odd in (3, 6) and PLAIN.isdisjoint(ns):
        # Objects that look like empty containers, or false
        ns['__len__' if odd == 3 else '__bool__'] = _falsy_len if odd == 3 else _falsy_bool
    return FpMeta(name, tuple(bases or (fp.FootprintBase,)), ns)


def access_mode(cls, attr):
    """The descriptor of an attribute."""
    for c in cls.__mro__:
        if attr in c.__dict__:
            return c.__dict__[attr]


@contextlib.contextmanager
def capture():
    out, sys.stdout = sys.stdout, io.StringIO()
    try:
        yield sys.stdout
    finally:
        sys.stdout = out


def target(x):
    """The actual object (whenever x is a weak proxy)."""
    if isinstance(x, weakref.ProxyTypes):
        try:
            return x.__repr__.__self__
        except ReferenceError:
            return x
    return x


def same_value(a, b):
    """Same type (or same object) and equal."""
    a, b = target(a), target(b)
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, float) and a != a and b != b:
        return True
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(same_value(v, b[k]) for k, v in a.items())
    return a == b


def same_dict(a, b):
    return set(a) == set(b) and all(same_value(a[k], b[k]) for k in a)


def snapshot(x, depth=8):
    """A deep, comparable and independent image of x."""
    if depth == 0:
        return '...'
    if isinstance(x, dict):
        return ('dict', type(x).__name__, frozenset((k if isinstance(k, str) else snapshot(k, depth - 1), snapshot(v, depth - 1))
                                                    for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snapshot(v, depth - 1) for v in x))
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, frozenset(snapshot(v, depth - 1) for v in x))
    if isinstance(x, (str, int, float, bool, bytes, type(None))):
        return (type(x).__name__, x)
    if isinstance(x, priorities.PriorityLevel):
        return ('level', x.tag, id(x.inset))
    if isinstance(x, fp.FPRegex):
        return ('regex', x.pattern, x.flags)
    if isinstance(x, fp.FootprintBase):
        return ('fpobj', id(x), tuple((k, snapshot(getattr(x, k), depth - 1)) for k in x.footprint_attributes
                                      if hasattr(x, k)))
    if type(x).__repr__ is not object.__repr__ and not isinstance(x, type):
        return (type(x).__name__, repr(x))
    return (type(x).__name__, id(x))


def is_unset(v):
    """An attribute without any value, in the result of a resolution."""
    return v is fp.UNKNOWN or (isinstance(v, str) and v == fp.UNKNOWN)


def srepr_values(d):
    return {k: repr(v) for k, v in d.items()}
