"""P22: errors raised by user code, and queries nested in it, disturb nothing (fault injection)."""

import gc

from ..lib import config, fp, mkclass, newtag, priorities, reporting, snapshot, target, uniq


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


class Plan:
    """When the user code is called for the n-th time, something happens."""

    def __init__(self):
        self.n = 0
        self.count = 0
        self.action = None
        self.site = None

    def __call__(self, site):
        if self.action is None:
            return
        self.count += 1
        if self.count == self.n:
            action, self.action = self.action, None
            self.site = site
            action()


HOOK = Plan()


class Txt(str):
    """A text type (its conversion is user code)."""

    def __new__(cls, v):
        HOOK('convert')
        return super().__new__(cls, str(v).lower())


class Num(int):

    def __new__(cls, v):
        HOOK('convert')
        return super().__new__(cls, v)


class Stamp:
    """Comparisons are user code."""

    def __init__(self, v):
        HOOK('convert')
        self.v = v.v if isinstance(v, Stamp) else int(v)

    def __eq__(self, other):
        HOOK('compare')
        return isinstance(other, Stamp) and self.v == other.v

    def __ge__(self, other):
        HOOK('compare')
        return self.v >= other.v

    def __lt__(self, other):
        HOOK('compare')
        return self.v < other.v

    def __hash__(self):
        return self.v % 2

    def __repr__(self):
        return 'Stamp({})'.format(self.v)


class Prov:
    """A computed default."""

    def __init__(self, v):
        self.v = v

    def footprint_value(self):
        HOOK('provider')
        return self.v

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return 'Prov({!r})'.format(self.v)


class Tool:
    """Something with methods."""

    def __init__(self, v):
        self.v = v

    def label(self, g, e):
        HOOK('method')
        return 'l' + self.v

    def __str__(self):
        HOOK('str')
        return self.v

    def __repr__(self):
        return 'Tool({!r})'.format(self.v)


class Own(Tool):
    """A tool that is the value of an attribute: its errors are never tried again."""

    def __init__(self, v):
        HOOK('convert')
        super().__init__(v.v if isinstance(v, Tool) else v)

    def label(self, g, e):
        HOOK('ownmethod')
        return 'l' + self.v

    def __eq__(self, other):
        return isinstance(other, Own) and self.v == other.v

    def __hash__(self):
        return 3

    def __str__(self):
        HOOK('ownstr')
        return self.v


GOOD = dict(txt=['red', 'Blue', 'green', 'RED'], num=[1, 2, '3', '2'], stamp=[1, 2, 3, '2', '1'], str=['red', 'x1', 'y', 'l'], own=['red', 'x1', Own('x1'), Own('b')])
BAD = dict(txt=['nope'], num=['zz', 'w'], stamp=['abc'], str=['nope'], own=['nope'])
TYPES = dict(txt=Txt, num=Num, stamp=Stamp, str=str, own=Own)
NAMES = ['kind', 'model', 'size', 'when', 'zone', 'a', 'b', 'c']
EXCS = [Boom, BaseBoom, KeyboardInterrupt, MemoryError, RuntimeError, KeyError, AttributeError, LookupError, AssertionError,
        StopIteration, NotImplementedError, OSError, RecursionError, GeneratorExit]
HARD = ('riseup', 'init', 'member', 'weight', 'reusable', 'callback', 'provider', 'compare', 'decorator', 'ownmethod')
SOFT = [ValueError, TypeError, OverflowError, fp.FootprintException, fp.FootprintFatalError]


def gen_attr(rng, kind):
    a = dict(type=TYPES[kind])
    if rng.random() < 0.5:
        vals = rng.sample(GOOD[kind], rng.randint(1, 4))
        a['values'] = vals
    if rng.random() < 0.2:
        a['outcast'] = [rng.choice(GOOD[kind])]
    if rng.random() < 0.45:
        a['optional'] = True
        r = rng.random()
        if r < 0.4:
            a['default'] = Prov(rng.choice(GOOD[kind]))
        elif r < 0.6:
            a['default'] = rng.choice(GOOD[kind])
        elif r < 0.8 and kind in ('str', 'txt'):
            a['default'] = rng.choice(['[tool:label]', '[tool]', 'x[tool:label]y', '[gtool:label]', '[kind]', '[gtool]'])
    if rng.random() < 0.2:
        a['remap'] = {'nope': rng.choice(GOOD[kind]), 'w': 1}
    if rng.random() < 0.3:
        a['access'] = rng.choice(['rwx', 'rwx', 'rwd'])
    return a


class Hooked:
    """What some classes customise."""

    def riseup(self):
        HOOK('riseup')
        fp.FootprintBase.footprint_riseup(self)
        HOOK('riseup')

    def init(self, *args, **kw):
        HOOK('init')
        fp.FootprintBase.__init__(self, *args, **kw)
        HOOK('init')

    @property
    def note(self):
        HOOK('member')
        return self.__dict__['note']

    @note.setter
    def note(self, value):
        HOOK('member')
        self.__dict__['note'] = value

    @classmethod
    def weight(cls, realinputs):
        HOOK('weight')
        return (cls.footprint_pl().rank, realinputs)

    @classmethod
    def reusable(cls):
        HOOK('reusable')
        return cls._reusable


def make_classes(rng, mon, tag, names, kinds):
    classes = dict()
    for i in range(rng.randint(1, 5)):
        attr = {n: gen_attr(rng, kinds[n]) for n in names if rng.random() < 0.85 or n == names[0] or kinds[n] == 'own'}
        if all(x.get('optional') for x in attr.values()):
            x = attr[sorted(attr)[0]]
            x.pop('optional', None)
            x.pop('default', None)
        decl = dict(attr=attr)
        if rng.random() < 0.3:
            st = [n for n in attr if kinds[n] == 'stamp']
            if st:
                n = rng.choice(st)
                decl['only'] = {rng.choice(['after_', 'before_', '']) + n: [Stamp(rng.randint(1, 3))]}
        decl['priority'] = dict(level=priorities.top.level(rng.choice(['none', 'default', 'toolbox', 'debug'])))
        ns = dict()
        if rng.random() < 0.2:
            ns['footprint_riseup'] = Hooked.riseup
        if rng.random() < 0.2:
            ns['__init__'] = Hooked.init
        if rng.random() < 0.3:
            ns['footprint_weight'] = Hooked.__dict__['weight']
        if rng.random() < 0.3:
            ns['footprint_reusable'] = Hooked.__dict__['reusable']
        if rng.random() < 0.3:
            ns['note'] = Hooked.__dict__['note']
        c = mkclass(uniq('Cls'), (tag,), decl, **ns)
        classes[c] = decl
        mon.note('class', c.__name__, decl, sorted(ns))
    return classes


def gen_desc(rng, names, kinds, objects):
    d = dict()
    for n in names:
        if rng.random() < 0.75:
            d[n] = rng.choice(GOOD[kinds[n]]) if rng.random() < 0.92 else rng.choice(BAD[kinds[n]])
            if kinds[n] in ('str', 'txt') and rng.random() < 0.25:
                d[n] = rng.choice(['[tool:label]', '[tool]', '[gtool:label]', '[tool:label][gtool:label]', '[carrier:tl:label]', '[tl:label]'])
                own = [x for x in names if kinds[x] == 'own']
                if own and rng.random() < 0.6:
                    d[n] = rng.choice(['[{}:label]', '[{}]', '[tool:label][{}:label]']).format(rng.choice(own))
    if rng.random() < 0.8:
        d['tool'] = Tool(rng.choice(['red', 'x1', 'blue']))
    if rng.random() < 0.3:
        d['carrier'] = rng.choice(objects)
    if rng.random() < 0.2:
        d['foreign'] = [1, 2]
    return d


def image(v):
    if isinstance(v, dict):
        return tuple(sorted((k, type(target(x)).__name__, repr(target(x)) if not isinstance(x, fp.FootprintBase) else id(x)) for k, x in v.items()))
    return repr(v)


def reasons(report):
    return {c: {a: sorted((k, repr(x)) for k, x in info.items()) for a, info in d.items()} for c, d in report.items()}


def run_case(rng, mon):
    HOOK.action = None
    tag, other = newtag(), newtag()
    names = rng.sample(NAMES, rng.randint(1, 5))
    kinds = {n: rng.choice(sorted(TYPES)) for n in names}
    classes = make_classes(rng, mon, tag, names, kinds)
    oclasses = make_classes(rng, mon, other, names, kinds)
    objects = [mkclass(uniq('Obj'), (newtag(),), dict(attr=dict(tl=dict(type=Tool))))(tl=Tool('car'))]
    colls = [fp.collectors.get(tag=tag), fp.collectors.get(tag=other)]
    allclasses = [classes, oclasses]
    gtool = Tool('g')

    def callback():
        HOOK('callback')
        return dict(gtool=gtool)

    fp.setup.callback = callback if rng.random() < 0.7 else None
    fp.setup.defaults = {n: rng.choice(GOOD[kinds[n]]) for n in names if rng.random() < 0.15}
    fp.setup.fastmode = rng.random() < 0.2
    for c in colls:
        c.report = rng.choice([0, 0, 1, 1, 2, 3])
        c.report_style = rng.choice([0, 1, 2, 3])
        if rng.random() < 0.4:
            c.fasttrack = rng.sample(names, rng.randint(1, len(names)))
    descs = [gen_desc(rng, names, kinds, objects) for _ in range(rng.randint(2, 4))]
    held = [list(), list()]         # the objects of each collector that are kept alive
    mon.note('descriptions', descs, 'defaults', dict(fp.setup.defaults), 'reports', [c.report for c in colls],
             'fast', fp.setup.fastmode, [sorted(c.fasttrack) for c in colls])

    def find_all(i, d, cache=None):
        try:
            found = colls[i].find_all(d, resolvecache=cache)
        except fp.FootprintException as e:
            return type(e).__name__
        return {c.__name__: (image(v), frozenset(x)) for c, v, x in found}

    def best_of(i, ref):
        """The classes find_best may choose."""
        byname = {c.__name__: c for c in allclasses[i]}
        w = {n: (byname[n].footprint_pl().rank, len(x[1])) for n, x in ref.items()}
        return {n for n in w if w[n] == max(w.values())}

    # The reference: nothing fails, nothing is nested
    refs = dict()
    for i in (0, 1):
        for j, d in enumerate(descs):
            o = mon.call('reference', find_all, i, d)
            if not o.ok:
                # e.g. a text that the formats or the types do not support
                mon.ev('reference-error')
                return
            refs[i, j] = o.value
            if o.value and not isinstance(o.value, str):
                if rng.random() < 0.6:
                    x = mon.ok('reference-load', colls[i].find_best, dict(d))
                    held[i].append((x, image(x.footprint_as_shallow_dict())))
                    if rng.random() < 0.5:
                        x.note = 'n'        # a plain member

    def state():
        return dict(defaults=snapshot(dict(fp.setup.defaults)),
                    switches=(fp.setup.extended, fp.setup.fatal, fp.setup.fastmode, fp.setup.fastkeys, fp.setup.report),
                    reports=[(c.report, c.report_style, c.report_auto) for c in colls],
                    fasttrack=[sorted(c.fasttrack) for c in colls],
                    classes=[{c.__name__: snapshot(c._footprint.as_dict()) for c in cl} for cl in allclasses],
                    registered=[set(c.items()) for c in colls], levels=priorities.top.levels)

    def observe(what, before, full):
        HOOK.action = None
        after = state()
        for k in before:
            mon.check(before[k] == after[k], '{} altered: {}'.format(what, k), before=before[k], after=after[k])
        for i in (0, 1):
            live = {id(x) for x, _ in held[i]}
            if {id(x) for x in colls[i].instances()} != live:
                gc.collect()
            mon.same(what + ': tracked objects', sorted(type(x).__name__ for x in colls[i].instances() if id(x) not in live), [])
            mon.same(what + ': number of tracked objects', len(colls[i].instances()), len(live))
            for x, img in held[i]:
                mon.same(what + ': attributes of an existing object', image(x.footprint_as_shallow_dict()), img)
        if not full:
            return
        for i in (0, 1):
            for j, d in enumerate(descs):
                got = mon.ok('again', find_all, i, d, cache=shared if rng.random() < 0.5 else None)
                mon.same('{}: candidates for {!r} afterwards'.format(what, d), got, refs[i, j])
                if not got and got != 'FootprintUnreachableAttr' and colls[i].report and not colls[i].fasttrack:
                    last = colls[i].report_last
                    mon.same(what + ': classes of the report afterwards', sorted(last.as_dict()), sorted(c.fullname() for c in allclasses[i]))
                    mon.ev('reports-observed')
                mon.ev('answers-compared')

    shared = fp.collectors.ResolveCache()
    for step in range(rng.randint(4, 10)):
        i = rng.randint(0, 1)
        j = rng.randrange(len(descs))
        d = dict(descs[j])
        ref = refs[i, j]
        how = rng.choice(['find_all', 'find_all', 'find_any', 'find_best', 'load', 'pickup', 'fppickup', 'default', 'construct', 'couldbe',
                          'clone', 'set', 'compatible', 'grep', 'define', 'define', 'default', 'find_best', 'clone', 'clone'])
        cache = shared if rng.random() < 0.4 else None
        cls = rng.choice(sorted(allclasses[i], key=lambda c: c.__name__))
        arg = d
        if how in ('pickup', 'fppickup'):
            d['_report'] = False
            d['_emptywarning'] = False
            if how == 'fppickup':
                d['tag'] = colls[i].tag
        obj = rng.choice(held[i])[0] if held[i] else None
        if how in ('clone', 'set', 'compatible') and obj is None:
            continue
        if how == 'set':
            rw = [n for n in obj.footprint_attributes if type(obj).footprint_access(n) in ('rwx', 'rwd') and n in kinds]
            if not rw:
                continue
            attr, val = rng.choice(rw), None
            val = rng.choice(GOOD[kinds[attr]]) if rng.random() < 0.7 else rng.choice(['unlikely', -77, [1], None, 1.5])
        newname = uniq('Def')
        full = rng.random() < 0.5
        deco = list()

        def decorator(c):
            HOOK('decorator')
            return c

        def define():
            foot = fp.DecorativeFootprint(dict(attr=dict(newone=dict(type=Txt, values=['red', 'x1'], default='red', optional=True),
                                                         must=dict(type=Num, values=[1, '2']))), decorator=[decorator])
            deco.append(mkclass(newname, (tag,), foot))

        def operate():
            if how in ('find_all', 'find_any', 'find_best'):
                return getattr(colls[i], how)(d, resolvecache=cache)
            if how == 'load':
                return colls[i].load(**d)
            if how == 'pickup':
                return colls[i].pickup(arg)
            if how == 'fppickup':
                return fp.pickup(arg)
            if how == 'default':
                return colls[i].default(**d)
            if how == 'grep':
                return colls[i].grep(**{k: v for k, v in d.items() if k in names})
            if how == 'construct':
                return cls(**d)
            if how == 'couldbe':
                return cls.footprint_couldbe(d, resolvecache=cache)
            if how == 'clone':
                return obj.footprint_clone(full=full, extra={k: v for k, v in d.items() if k in obj.footprint_attributes})
            if how == 'compatible':
                return obj.footprint_compatible(d)
            if how == 'set':
                return setattr(obj, attr, val)
            return define()

        HOOK.site = None
        nested_errors = list()
        exc = None
        what_happens = rng.choice(['error', 'error', 'error', 'soft', 'soft', 'nested', 'nested', 'gc'])
        if what_happens in ('error', 'soft'):
            exc = rng.choice(EXCS if what_happens == 'error' else SOFT)('injected %d' % step)

            def action():
                raise exc
        elif what_happens == 'nested':
            ii = rng.randint(0, 1)
            jj = rng.randrange(len(descs))
            if rng.random() < 0.5:
                ii = i
            nhow = rng.choice(['find_all', 'load', 'pickup', 'find_any', 'find_all'])
            if ii == i:
                mon.ev('nested-same-collector')

            def action():
                nd = dict(descs[jj])
                try:
                    if nhow == 'find_all':
                        got = find_all(ii, nd, cache=cache)
                        if got != refs[ii, jj]:
                            nested_errors.append('candidates for {!r}: {!r} instead of {!r}'.format(nd, got, refs[ii, jj]))
                    else:
                        try:
                            if nhow == 'load':
                                x = colls[ii].load(**nd)
                            elif nhow == 'pickup':
                                x = colls[ii].pickup(dict(nd, _report=False, _emptywarning=False))[colls[ii].tag]
                            else:
                                x = colls[ii].find_any(nd)
                        except fp.FootprintException as e:
                            if refs[ii, jj] != type(e).__name__:
                                raise
                        else:
                            if isinstance(refs[ii, jj], dict) and (x is None) != (not refs[ii, jj]):
                                nested_errors.append('{} gives {!r} for {!r}'.format(nhow, x, nd))
                            del x
                except Exception as e:
                    nested_errors.append('{} fails for {!r}: {!r}'.format(nhow, nd, e))
                mon.ev('nested-queries')
        else:
            action = gc.collect
        HOOK.n = rng.choice([1, 1, 2, 3, rng.randint(1, 12), rng.randint(1, 40)])
        if rng.random() < 0.7 and how not in ('set', 'define'):
            # How many times is the user code called?
            HOOK.count, HOOK.n, HOOK.site, HOOK.action = 0, -1, None, gc.collect
            arg0, arg = arg, dict(arg)
            try:
                operate()
            except fp.FootprintException:
                pass
            HOOK.action, arg = None, arg0
            HOOK.n = rng.choice([rng.randint(1, max(1, HOOK.count)), rng.randint(1, max(1, HOOK.count)), HOOK.count])
            arg0 = None
        HOOK.count = 0
        before = state()
        nlog = len(colls[i].report_log) if colls[i].report == config.FULL_REPORTING else None
        if nlog is not None and colls[i].report_log.items().maxlen is not None and nlog + 2 > colls[i].report_log.items().maxlen:
            colls[i].report_log.clear()
            nlog = 0
        args = {k: (id(v), snapshot(v)) for k, v in d.items()}
        HOOK.action = action
        mon.entered = True
        res = err = None
        try:
            res = operate()
        except BaseException as e:
            if type(e).__name__ in ('Watchdog', 'StepBudgetExceeded', 'Violation'):
                raise
            err = e.with_traceback(None)
            err.__context__ = err.__cause__ = None
        HOOK.action = None
        site = HOOK.site
        what = '{:d}:{}({}, {}, call {:d} at {})'.format(step, how, cls.__name__ if how in ('construct', 'couldbe') else j, what_happens,
                                                       HOOK.n, site)
        mon.trace.append('{} -> {!r} {!r}'.format(what, res, err)[:300])
        mon.ev('call:' + how)
        mon.sig(what, sorted(map(repr, d.items())), sorted(repr(x) for x in classes.values()))
        if site:
            mon.nontrivial()
            mon.ev(what_happens + '-at-' + site)
        mon.check(not nested_errors, '{}: nested query: {}'.format(what, nested_errors))
        # The error reaches the caller
        normal = site is None or what_happens in ('nested', 'gc')
        if what_happens == 'error' and site:
            swallowed = (site == 'method' and isinstance(exc, Exception)) or (site == 'convert' and colls[i].fasttrack and
                                                                                        isinstance(exc, Exception))
            if err is not exc:
                if isinstance(err, fp.FootprintException) and swallowed:
                    pass        # e.g. tried again, up to the error of another class or attribute
                elif isinstance(exc, StopIteration) and isinstance(err, RuntimeError):
                    pass
                else:
                    mon.check(err is None and swallowed, '{}: {!r} instead of the error of the user code ({!r})'.format(what, err or res, exc))
                    normal = err is None and not isinstance(ref, str)
            else:
                mon.ev('errors-propagated')
        if what_happens == 'soft' and site in HARD:
            # (these errors are refusals within a conversion only)
            mon.check(err is exc, '{}: {!r} instead of the error of the user code ({!r})'.format(what, err or res, exc))
            mon.ev('errors-propagated')
        # The usual answer
        if normal and how in ('find_all', 'find_any', 'find_best', 'load', 'pickup', 'fppickup'):
            if isinstance(ref, str):
                # finding any of the candidates may stop before the error
                mon.check(how == 'find_any' or type(err).__name__ == ref, '{}: {!r} instead of {}'.format(what, err or res, ref))
            else:
                mon.check(err is None, '{}: unexpected error {!r}'.format(what, err), exc=err)
                if how == 'find_all':
                    if what_happens == 'nested' and site and colls[i].report and nlog is not None and len(colls[i].report_log) > nlog:
                        # What has been recorded for this query is what is recorded without the nested one
                        entries = [reasons(x.as_dict()) for x in list(colls[i].report_log.items())[nlog:]]
                        # (the callback is called before anything is recorded)
                        entries = entries if site == 'callback' else entries[:1]
                        find_all(i, dict(descs[j]))
                        exp = reasons(colls[i].report_last.as_dict())
                        mon.check(exp in entries, what + ': report', observed=entries, expected=exp)
                        mon.ev('nested-reports')
                    mon.same(what + ': candidates', {c.__name__: (image(v), frozenset(x)) for c, v, x in res}, ref)
                else:
                    x = res if how not in ('pickup', 'fppickup') else res[colls[i].tag]
                    mon.check((x is None) == (not ref), '{}: {!r} instead of one of {!r}'.format(what, x, sorted(ref)))
                    if x is not None:
                        n = type(x).__name__
                        mon.check(n in (ref if how == 'find_any' else best_of(i, ref)), '{}: a {} instead of one of {!r}'.format(what, n, sorted(ref)))
                        mon.same(what + ': values', image({k: (fp.UNKNOWN if v is None else v) for k, v in x.footprint_as_shallow_dict().items()}),
                                 tuple(sorted((k, t, v) for k, t, v in ref[n][0])))
                    del x
        # The description
        if how in ('pickup', 'fppickup') and err is not None:
            for k, v in descs[j].items():
                mon.check(k in arg and arg[k] is v, '{}: entry {!r} of the description lost'.format(what, k))
            mon.check(colls[i].tag not in arg or arg[colls[i].tag] is None, what + ': something stored')
        elif how not in ('pickup', 'fppickup'):
            mon.same(what + ': description', {k: (id(v), snapshot(v)) for k, v in d.items()}, args)
        # Definitions
        if how == 'define':
            if err is not None:
                mon.check(newname not in {c.__name__ for c in fp.collected_classes()}, what + ': registered all the same')
                mon.ev('definitions-refused')
            else:
                colls[tag == colls[1].tag].discard(deco[0])
                colls[0].discard(deco[0])
            deco.clear()
        # Objects
        if how == 'set':
            if err is None:
                held[i] = [(x, image(x.footprint_as_shallow_dict())) if x is obj else (x, im) for x, im in held[i]]
        res = err = exc = arg = d = args = None
        observe(what, before, rng.random() < 0.5)
    mon.ev('histories')


assert config and reporting
