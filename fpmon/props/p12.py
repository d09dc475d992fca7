"""P12: sets of priority levels against a plain list of names."""

import copy
import pickle

from ..lib import priorities

POOL = ['none', 'Default', 'toolbox', 'DEBUG', 'alpha', 'Beta', 'gamma', 'x1', 'low', 'high', 'very-high', 'a b', 'levels', 'été', 'low_one', 'x1_2']


class Ref:
    """The specification: a list of names and the frozen ones."""

    def __init__(self, names):
        self.now = list()
        self.extend(names)
        self.frozen = dict(default=tuple(self.now))

    def extend(self, names):
        for n in [n.upper() for n in names]:
            if n in self.now:
                self.now.remove(n)
            self.now.append(n)

    def insert(self, tag, after=None, before=None):
        tag = tag.upper()
        ref = (after or before or '').upper()
        if ref and (ref == tag or ref not in self.now):
            raise ValueError
        self.extend([tag])
        if ref:
            self.now.remove(tag)
            self.now.insert(self.now.index(ref) + (1 if after else 0), tag)

    def rerank(self, tag, upd):
        tag = tag.upper()
        i = self.now.index(tag)
        self.now.remove(tag)
        self.now.insert(max(0, i + upd), tag)

    def remove(self, tag):
        self.now.remove(tag.upper())

    def copy(self):
        r = Ref([])
        r.now, r.frozen = list(self.now), dict(self.frozen)
        return r


def case(rng, name):
    return rng.choice([str.lower, str.upper, str.capitalize, str, str.swapcase])(name)


def run_case(rng, mon):
    if rng.random() < 0.3:
        ps, ref = priorities.top, Ref(['none', 'default', 'toolbox', 'debug'])
        mon.note('the default set')
        for t in ps.freezed():
            # orders frozen by the previous cases
            if t != 'default':
                ps.freeze(t)
                ref.frozen[t] = tuple(ref.now)
    else:
        names = rng.sample(POOL, rng.randint(0, 6))
        if names and rng.random() < 0.3:
            names.append(case(rng, rng.choice(names)))
        names = [case(rng, n) for n in names]
        mon.note('set of', names)
        ps, ref = (priorities.PrioritySet(levels=names) if names or rng.random() < 0.5 else priorities.PrioritySet()), Ref(names)
    pairs = [(ps, ref)]
    held = list()        # levels got at some point, used later on

    def observe(what):
        for ps, ref in pairs:
            now = tuple(ref.now)
            mon.same(what + ': levels', ps.levels, now)
            mon.same(what + ': levels (iteration)', tuple(ps), now)
            mon.same(what + ': levels (call)', ps(), now)
            mon.same(what + ': number of levels', len(ps), len(now))
            mon.same(what + ': frozen orders', list(ps.freezed()), sorted(ref.frozen))
            for n in rng.sample(POOL, 5) + rng.sample(now, min(len(now), 4)):
                u = n.upper()
                mon.check((case(rng, n) in ps) == (u in now), '{}: membership of {}'.format(what, n))
                for part in (n[:rng.randint(0, len(n))], n + rng.choice('x_ S'), n[1:]):
                    mon.check((case(rng, part) in ps) == (part.upper() in now), '{}: membership of {}'.format(what, part))
                lev = ps.level(case(rng, n))
                mon.check((lev is not None) == (u in now), '{}: level {} is {!r}'.format(what, n, lev))
                if lev is not None:
                    i = now.index(u)
                    mon.same('{}: tag of {}'.format(what, n), lev.tag, u)
                    mon.check(lev.inset is ps, what + ': level of another set')
                    mon.same('{}: rank of {}'.format(what, n), (lev.rank, lev(), ps.levelindex(case(rng, n))), (i, i, i))
                    nxt, prv = lev.nextlevel(), lev.prevlevel()
                    mon.same('{}: level after {}'.format(what, n), nxt and nxt.tag, now[i + 1] if i + 1 < len(now) else None)
                    mon.same('{}: level before {}'.format(what, n), prv and prv.tag, now[i - 1] if i else None)
                    byi = ps.levelbyindex(i)
                    mon.same('{}: level of rank {}'.format(what, i), byi and byi.tag, u)
                    mon.check(lev in ps, what + ': membership of the level itself')
                    if i + 1 < len(now):
                        mon.check(getattr(ps, u) == lev, what + ': named access')
                else:
                    o = mon.call('levelindex', ps.levelindex, n)
                    mon.check(not o.ok, '{}: rank of an unknown level {!r}'.format(what, o))
            mon.check(ps.levelbyindex(-1) is None and ps.levelbyindex(len(now)) is None, what + ': out of the set')
            # comparisons, by level or by name
            for _ in range(6):
                if not now:
                    break
                a, b = rng.choice(now), rng.choice(now)
                i, j = now.index(a), now.index(b)
                la = ps.level(a)
                for lb in (ps.level(b), case(rng, b)):
                    mon.same('{}: comparison of {} with {!r}'.format(what, a, lb),
                             (la == lb, la != lb, la > lb, la < lb, la >= lb, la <= lb), (i == j, i != j, i > j, i < j, i >= j, i <= j))
                mon.same('{}: comparison of {!r} with {}'.format(what, case(rng, b), a), (case(rng, b) == la), i == j)
            for lev, n in held:
                # levels got previously always follow the current order
                if lev.inset is ps and n in now:
                    mon.same('{}: rank of {} (level got previously)'.format(what, n), lev.rank, now.index(n))
                    other = ps.level(rng.choice(now))
                    mon.same('{}: {} (level got previously) > {}'.format(what, n, other.tag), lev > other, now.index(n) > other.rank)
            for lev, n in held:
                if lev.inset is ps and n not in now:
                    mon.refused('rank of a removed level', Exception, lambda lev=lev: lev.rank)
                    mon.ev('removed-levels')
            if now:
                mon.check(not (ps.level(now[0]) == 'nosuchlevel'), what + ': equal to an unknown name')
        mon.ev('states-compared')

    observe('initial state')
    for step in range(rng.randint(5, 30)):
        ps, ref = rng.choice(pairs)
        now = list(ref.now)
        if now and rng.random() < 0.3:
            n = rng.choice(now)
            held.append((ps.level(n), n))
            del held[:-6]
        known = rng.choice(now) if now else 'nothing'
        new = rng.choice(POOL) if rng.random() < 0.7 else known
        op = rng.choice(['extend', 'insert-after', 'insert-before', 'insert-both', 'insert', 'rerank', 'up', 'down', 'top', 'bottom', 'addafter',
                         'addbefore', 'delete', 'remove', 'remove-level', 'freeze', 'restore', 'restore', 'reset', 'copy', 'bad', 'bad',
                         'set_after', 'set_before', 'none'])
        what = '{:d}:{}({},{})'.format(step, op, known, new)
        mon.trace.append(what)
        lev = ps.level(known)
        if now and rng.random() < 0.4:
            hs = [(lv, n) for lv, n in held if lv.inset is ps and n in now]
            if hs:
                lev, known = rng.choice(hs)
        if op == 'extend':
            names = [case(rng, rng.choice(POOL + now)) for _ in range(rng.randint(0, 3))]
            mon.ok(op, ps.extend, *names)
            ref.extend(names)
        elif op in ('insert-after', 'insert-before', 'insert-both'):
            kw = dict()
            given = rng.choice([case(rng, known), lev if lev is not None else known])
            others = [p.level(known) for p, _ in pairs if p is not ps and known in p]
            if lev is not None and others and rng.random() < 0.4:
                given = rng.choice(others)      # only its name matters
                mon.ev('level-of-another-set')
            if op != 'insert-before':
                kw['after'] = given
            else:
                kw['before'] = given
            if op == 'insert-both':
                kw['before'] = rng.choice(POOL)
            if rng.random() < 0.15:
                known = rng.choice(['unknown', 'nosuch'])
                kw['after' if 'after' in kw else 'before'] = known
            r2 = ref.copy()
            try:
                r2.insert(new, **({'after': known} if 'after' in kw else {'before': known}))
            except ValueError:
                mon.refused(op, ValueError, ps.insert, tag=case(rng, new), **kw)
                mon.ev('refused')
            else:
                res = mon.ok(op, ps.insert, tag=case(rng, new), **kw)
                ref.now = r2.now
                mon.same(what + ': result', res.tag, new.upper())
        elif op == 'insert':
            res = mon.ok(op, ps.insert, case(rng, new))
            ref.insert(new)
            mon.same(what + ': result', res.tag, new.upper())
        elif op in ('addafter', 'addbefore'):
            if lev is None:
                continue
            if new.upper() == known.upper():
                mon.refused(op, ValueError, getattr(lev, op), case(rng, new))
            else:
                mon.ok(op, getattr(lev, op), case(rng, new))
                ref.insert(new, **{op[3:]: known})
        elif op in ('set_after', 'set_before'):
            if ps is not priorities.top or not now:
                continue
            news = [n for n in rng.sample(POOL, rng.randint(1, 3)) if n.upper() != known.upper()]
            mon.ok(op, getattr(priorities, op), case(rng, known), *news)
            for n in (news if op == 'set_before' else reversed(news)):
                ref.insert(n, **{op[4:]: known})
        elif op in ('rerank', 'up', 'down', 'top', 'bottom'):
            if lev is None:
                continue
            if op == 'rerank':
                upd = rng.randint(-4, 4)
                res = mon.ok(op, ps.rerank, case(rng, known), upd)
            else:
                upd = dict(up=1, down=-1, top=len(now), bottom=-len(now))[op]
                res = mon.ok(op, getattr(lev, op))
            ref.rerank(known, upd)
            mon.same(what + ': result', res.tag, known.upper())
        elif op in ('delete', 'remove', 'remove-level'):
            if lev is None:
                continue
            if op == 'delete':
                mon.ok(op, lev.delete)
            else:
                mon.ok(op, ps.remove, lev if op == 'remove-level' else case(rng, known))
            ref.remove(known)
        elif op == 'freeze':
            tag = rng.choice(['one', 'Two', 'THREE'])
            mon.ok(op, ps.freeze, case(rng, tag))
            ref.frozen[tag.lower()] = tuple(ref.now)
        elif op == 'restore':
            tag = rng.choice(sorted(ref.frozen))
            mon.ok(op, ps.restore, case(rng, tag))
            ref.now = list(ref.frozen[tag])
            mon.ev('restored')
        elif op == 'reset':
            mon.ok(op, ps.reset)
            ref.now = list(ref.frozen['default'])
        elif op == 'copy':
            if len(pairs) > 2:
                continue
            how = rng.choice(['deepcopy', 'pickle'])
            new = mon.ok(how, copy.deepcopy if how == 'deepcopy' else lambda x: pickle.loads(pickle.dumps(x)), ps)
            pairs.append((new, ref.copy()))
        elif op == 'none':
            mon.same(what, mon.ok(op, ps.insert, None), None)
        else:
            bad = rng.choice(['remove', 'rerank', 'rerank-float', 'rerank-text', 'restore', 'freeze', 'extend', 'insert', 'self', 'levelindex', 'ref'])
            what += ' ' + bad
            unknown = 'unknown%d' % step
            mon.trace.append(bad)
            if bad == 'remove':
                mon.refused(bad, Exception, ps.remove, unknown)
            elif bad == 'rerank':
                mon.refused(bad, Exception, ps.rerank, unknown, 1)
            elif bad in ('rerank-float', 'rerank-text'):
                if lev is not None:
                    mon.refused(bad, Exception, ps.rerank, known, 0.5 if bad == 'rerank-float' else 'x')
            elif bad == 'restore':
                mon.refused(bad, Exception, ps.restore, unknown)
            elif bad == 'freeze':
                mon.refused(bad, ValueError, ps.freeze, rng.choice(['default', 'Default']))
            elif bad == 'extend':
                mon.refused(bad, Exception, ps.extend, new, rng.choice([5, None]), 'another')
            elif bad == 'insert':
                mon.refused(bad, Exception, ps.insert, new, **{rng.choice(['after', 'before']): rng.choice([unknown, 5])})
            elif bad == 'self':
                mon.refused(bad, Exception, ps.insert, known, **{rng.choice(['after', 'before']): case(rng, known)})
            elif bad == 'ref':
                gone = [lv for lv, n in held if lv.inset is ps and n not in now]
                if gone:
                    mon.refused(bad, Exception, ps.insert, new, **{rng.choice(['after', 'before']): gone[0]})
            else:
                mon.refused(bad, Exception, ps.levelindex, unknown)
            mon.ev('refused')
        mon.sig(op, known, tuple(ref.now))
        if tuple(now) != tuple(ref.now):
            mon.nontrivial()
        observe(what)
