"""
Monitoring framework: case driver, event recorder, verdicts, evidence.

A property module (fpmon.props.pNN) provides:

    RULE            how cases are made / what makes one non-trivial (text, for the evidence file)
    CASES           dict(quick=N, thorough=M): number of cases
    REQUIRED        iterable of event names that have to be observed (else: inconclusive)
    run_case(rng, mon)   drive the real code, observe it, check it

Verdict of a case: held / violated (mon.fail or an unexpected exception once the code under test has
been entered) / inconclusive (wall clock watchdog).  Non-termination is decided on logical steps (number
of jumps and function entries executed in /repo/src/footprints), never on wall clock time.
"""

import hashlib
import io
import json
import os
import random
import signal
import sys
import time
import traceback

REPO_SRC = os.environ.get('FPMON_REPO_SRC', '/repo/src')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_VIOLATIONS = 3          # per worker
WATCHDOG = 120              # seconds per case (inconclusive when it fires)
STEP_BUDGET = 3000000       # jumps + function entries in the code under test, per monitored call


class Violation(Exception):
    """The observed behaviour refutes the property."""

    def __init__(self, msg, key=None, **details):
        super().__init__(msg)
        self.key = key
        self.details = details


class StepBudgetExceeded(BaseException):
    """The code under test does not terminate (logical steps)."""


class Watchdog(BaseException):
    """Wall clock watchdog: inconclusive."""


class StepMonitor:
    """Counts logical steps and lines reached in the code under test (sys.monitoring)."""

    TOOL = 4

    def __init__(self, root):
        self.root = root
        self.steps = 0
        self.total_steps = 0
        self.limit = STEP_BUDGET
        self.lines = set()
        self.codes = set()
        mon = sys.monitoring
        self._ev = mon.events
        mon.use_tool_id(self.TOOL, 'fpmon')
        self._in = dict()
        mon.register_callback(self.TOOL, self._ev.LINE, self._line)
        mon.register_callback(self.TOOL, self._ev.JUMP, self._jump)
        mon.register_callback(self.TOOL, self._ev.PY_START, self._start)
        mon.set_events(self.TOOL, self._ev.LINE | self._ev.JUMP | self._ev.PY_START)

    def inside(self, code):
        r = self._in.get(code)
        if r is None:
            r = self._in[code] = code.co_filename.startswith(self.root)
        return r

    def _line(self, code, line):
        if self.inside(code):
            self.lines.add((os.path.basename(code.co_filename), line))
        return sys.monitoring.DISABLE

    def _jump(self, code, off, dest):
        if not self.inside(code):
            return sys.monitoring.DISABLE
        self._step()

    def _start(self, code, off):
        if not self.inside(code):
            return sys.monitoring.DISABLE
        self.codes.add(code.co_qualname)
        self._step()

    def _step(self):
        self.steps += 1
        if self.steps > self.limit:
            self.total_steps += self.steps
            self.steps = 0
            raise StepBudgetExceeded()

    def reset(self):
        self.total_steps += self.steps
        self.steps = 0


class Outcome:
    """What a monitored call did."""
    __slots__ = ('ok', 'value', 'exc')

    def __init__(self, ok, value=None, exc=None):
        self.ok, self.value, self.exc = ok, value, exc

    def __repr__(self):
        return 'returned ' + srepr(self.value) if self.ok else 'raised ' + srepr(self.exc)


def srepr(x, n=400):
    try:
        r = repr(x)
    except BaseException as e:  # noqa
        r = '<repr failed: {!r}>'.format(e)
    return r if len(r) <= n else r[:n] + '...'


class Mon:
    """The monitor handed over to a case."""

    def __init__(self, steps=None):
        self.counters = dict()
        self.stepmon = steps
        self.begin_case()

    def begin_case(self):
        self.trace = list()
        self.sigs = list()
        self.desc = list()
        self.nontriv = False
        self.entered = False
        if self.stepmon:
            self.stepmon.reset()

    def ev(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def sig(self, *what):
        self.sigs.append(srepr(what, 100000))

    def nontrivial(self):
        self.nontriv = True

    def note(self, *what):
        """A readable element of the case (samples and replays)."""
        self.desc.append(' '.join(w if isinstance(w, str) else srepr(w, 1500) for w in what))

    def call(self, label, fn, *args, **kw):
        """Call the code under test: record the event, return its :class:`Outcome`."""
        self.entered = True
        self.ev('call:' + label)
        self.trace.append(label)
        if self.stepmon:
            self.stepmon.reset()
        try:
            res = fn(*args, **kw)
        except StepBudgetExceeded:
            self.fail('{:s} does not terminate: more than {:d} steps executed'.format(label, STEP_BUDGET))
        except (Watchdog, Violation):
            raise
        except Exception as e:
            self.ev('raised:' + type(e).__name__)
            self.trace.append('  raised ' + srepr(e, 200))
            return Outcome(False, exc=e)
        self.trace.append('  -> ' + srepr(res, 200))
        return Outcome(True, value=res)

    def ok(self, label, fn, *args, **kw):
        """Same as call, for a call that must not fail; return its value."""
        o = self.call(label, fn, *args, **kw)
        if not o.ok:
            self.fail('{:s} failed unexpectedly: {:s}'.format(label, srepr(o.exc)), exc=o.exc)
        return o.value

    def refused(self, label, exc, fn, *args, **kw):
        """Same as call, for a call that must raise ``exc``."""
        o = self.call(label, fn, *args, **kw)
        if o.ok:
            self.fail('{:s} should have been refused (returned {:s})'.format(label, srepr(o.value)))
        if not isinstance(o.exc, exc):
            self.fail('{:s} raised {:s}, expected {!r}'.format(label, srepr(o.exc), exc))
        return o.exc

    def check(self, cond, msg, **details):
        self.ev('oracle-checks')
        if not cond:
            self.fail(msg, **details)

    def same(self, what, got, expected, **details):
        self.ev('oracle-checks')
        if not (got == expected):
            self.fail('{:s}: observed {:s}, expected {:s}'.format(what, srepr(got, 1500), srepr(expected, 1500)), **details)

    def fail(self, msg, key=None, exc=None, **details):
        if exc is not None:
            details['traceback'] = ''.join(traceback.format_exception(exc))[-3000:]
        raise Violation(msg, key=key, **details)


def case_rng(pid, tier, seed, idx):
    return random.Random('fpmon/{}/{}/{}/{}'.format(pid, tier, seed, idx))


def run_one(mod, pid, tier, seed, idx, mon):
    """Run a single case; return None (held) or a dict describing the violation."""
    from . import lib
    mon.begin_case()
    rng = case_rng(pid, tier, seed, idx)
    signal.alarm(WATCHDOG)
    out, sys.stdout = sys.stdout, io.StringIO()
    try:
        try:
            lib.reset(mon, idx)
            mod.run_case(rng, mon)
        except Violation as v:
            return dict(msg=str(v), key=v.key, details={k: srepr(x, 4000) if not isinstance(x, str) else x
                                                        for k, x in v.details.items()})
        except (Watchdog, KeyboardInterrupt):
            raise
        except StepBudgetExceeded:
            return dict(msg='the code under test does not terminate (step budget)', key=None,
                        details=dict(traceback=traceback.format_exc()[-3000:]))
        except Exception as e:
            return dict(msg='unexpected exception while driving or observing the code: ' + srepr(e), key=None,
                        details=dict(traceback=traceback.format_exc()[-3000:]))
    finally:
        sys.stdout = out
        signal.alarm(0)
    return None


def worker(pid, tier, seed, shard, nshards, ncases, soft, outfile):
    import importlib
    sys.path.insert(0, REPO_SRC)
    from . import lib
    if not os.path.realpath(lib.fp.__file__).startswith(os.path.realpath(REPO_SRC)):
        raise SystemExit('footprints not imported from ' + REPO_SRC)
    steps = StepMonitor(os.path.realpath(os.path.join(REPO_SRC, 'footprints')) + os.sep)
    mod = importlib.import_module('fpmon.props.' + pid.lower())

    def onalarm(signum, frame):
        raise Watchdog()

    signal.signal(signal.SIGALRM, onalarm)
    mon = Mon(steps)
    res = dict(evaluations=0, distinct=[], samples=[], violations=[], inconclusive=[])
    seen = set()
    t0 = time.time()
    done = 0
    for idx in range(shard, ncases, nshards):
        if time.time() - t0 > soft:
            res['truncated'] = True
            break
        try:
            bad = run_one(mod, pid, tier, seed, idx, mon)
        except Watchdog:
            res['inconclusive'].append('case {:d}: wall clock watchdog'.format(idx))
            break
        done += 1
        h = hashlib.sha1('|'.join(mon.sigs).encode('utf8', 'replace')).hexdigest()[:16]
        if mon.nontriv and h not in seen:
            seen.add(h)
            if len(res['samples']) < 3 and (idx // nshards) % 7 == 3:
                res['samples'].append(dict(case=idx, description=mon.desc[:12], trace=mon.trace[:24]))
        if bad:
            bad.update(case=idx, description=mon.desc, trace=mon.trace[-60:],
                       hashseed=os.environ.get('PYTHONHASHSEED'), shard=shard, nshards=nshards)
            res['violations'].append(bad)
            if len(res['violations']) >= MAX_VIOLATIONS:
                break
    res['evaluations'] = done
    res['distinct'] = sorted(seen)
    res['counters'] = mon.counters
    res['lines'] = sorted('{}:{}'.format(f, n) for f, n in steps.lines)
    res['functions'] = sorted(steps.codes)
    res['steps'] = steps.total_steps
    with open(outfile, 'w') as f:
        json.dump(res, f)


def replay(path):
    """Run again the case of a replay file (alone, then after the preceding cases of its worker)."""
    import importlib
    sys.path.insert(0, REPO_SRC)
    from . import lib  # noqa
    v = json.load(open(path))
    mon = Mon(StepMonitor(os.path.realpath(os.path.join(REPO_SRC, 'footprints')) + os.sep))
    mod = importlib.import_module('fpmon.props.' + v['property'].lower())
    bad = run_one(mod, v['property'], v['tier'], v['seed'], v['case'], mon)
    if not bad:
        print('not reproduced alone: replaying the preceding cases of the worker...')
        for idx in range(v['shard'], v['case'] + 1, v['nshards']):
            bad = run_one(mod, v['property'], v['tier'], v['seed'], idx, mon)
    for d in mon.desc:
        print('| ' + d)
    print('\n'.join(mon.trace[-60:]))
    if bad:
        print('REPRODUCED: ' + bad['msg'])
        for k, x in bad['details'].items():
            print('--', k, ':', x)
        return 1
    print('NOT REPRODUCED')
    return 0


def selftest():
    """Does the monitor itself work (step budget on the code under test, violations)?"""
    sys.path.insert(0, REPO_SRC)
    import importlib
    from . import lib  # noqa
    for i in range(1, 24):
        mod = importlib.import_module('fpmon.props.p{:02d}'.format(i))
        assert callable(mod.run_case)
    here = os.path.dirname(os.path.abspath(__file__)) + os.sep
    mon = Mon(StepMonitor(here))
    try:
        mon.call('endless', _endless)
    except Violation:
        pass
    else:
        raise SystemExit('the step budget does not work')
    try:
        mon.same('sum', 1 + 1, 3)
    except Violation:
        pass
    else:
        raise SystemExit('the oracle does not work')
    print('fpmon: ready')
    return 0


def _endless():
    while True:
        pass
