#!/usr/bin/env python3
"""
Run the check of one property:  run.py PXX [quick|thorough]      (VERIF_SEED, VERIF_TIER)
Replay a violation:             run.py --replay FILE
"""

import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = '/opt/venv/bin/python'
if not os.path.exists(PY):
    PY = sys.executable


def child_env(hashseed, scratch):
    env = {k: v for k, v in os.environ.items() if not k.startswith(('PYTHON', 'FOOTPRINT'))}
    env.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=VERIF,
               PYTHONPYCACHEPREFIX=os.path.join(scratch, 'nopyc'), TZ='UTC', LANG='C.UTF-8', LC_ALL='C.UTF-8')
    return env


def read_known(pid):
    """The known findings of this property: dict(key=text)."""
    known = dict()
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            parts = line.split(None, 3)
            if len(parts) == 4 and parts[0] == 'finding:' and parts[1] == 'property=' + pid:
                known[parts[2].partition('=')[2]] = parts[3].strip()
    return known


def spawn(pid, tier, seed, nshards, ncases, soft, scratch):
    procs = list()
    for s in range(nshards):
        wd = os.path.join(scratch, 'w%d' % s)
        os.makedirs(wd)
        out = os.path.join(scratch, 'out%d.json' % s)
        code = ('from fpmon import core; core.worker({!r}, {!r}, {!r}, {!r}, {!r}, {!r}, {!r}, {!r})'
                .format(pid, tier, seed, s, nshards, ncases, soft, out))
        log = open(os.path.join(scratch, 'log%d.txt' % s), 'w')
        procs.append((s, out, log, subprocess.Popen([PY, '-c', code], cwd=wd, stdout=log, stderr=log,
                                                    env=child_env((seed * 7919 + s * 104729 + 1) % 4294967295, scratch))))
    return procs


def main(argv):
    if argv and argv[0] == '--replay':
        return replay(argv[1])
    if argv and argv[0] == '--selftest':
        return selftest()
    pid = argv[0].upper()
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    except ValueError:
        seed = sum(ord(c) * 31 ** (i % 8) for i, c in enumerate(os.environ['VERIF_SEED']))
    meta = json.load(open(os.path.join(HERE, 'sizes.json')))
    ncases = meta[pid][tier]
    if os.environ.get('FPMON_CASES'):
        ncases = int(os.environ['FPMON_CASES'])
    nshards = min(8, max(2, os.cpu_count() or 2))
    nshards = min(nshards, ncases)
    soft = 300 if tier == 'quick' else 700
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='fpmon-')
    try:
        results, errors = list(), list()
        for s, out, log, p in spawn(pid, tier, seed, nshards, ncases, soft, scratch):
            try:
                rc = p.wait(timeout=max(5, soft + 100 - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = 'timeout'
            log.close()
            if rc != 0 or not os.path.exists(out):
                errors.append('worker {:d} ended with {!s}: {:s}'.format(s, rc, open(log.name).read()[-1500:]))
            else:
                results.append(json.load(open(out)))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return conclude(pid, tier, seed, ncases, nshards, results, errors, time.time() - t0)


def conclude(pid, tier, seed, ncases, nshards, results, errors, wall):
    info = json.load(open(os.path.join(HERE, 'sizes.json')))[pid]
    counters, distinct, lines, functions, samples, violations, inconclusive = {}, set(), set(), set(), [], [], []
    evaluations = steps = 0
    truncated = False
    for r in results:
        evaluations += r['evaluations']
        steps += r['steps']
        distinct.update(r['distinct'])
        lines.update(r['lines'])
        functions.update(r['functions'])
        for k, v in r['counters'].items():
            counters[k] = counters.get(k, 0) + v
        samples.extend(r['samples'][:1])
        violations.extend(r['violations'])
        inconclusive.extend(r['inconclusive'])
        truncated = truncated or r.get('truncated', False)
    if os.environ.get('FPMON_LINES'):
        # Development: where to write the lines reached
        with open(os.path.join(os.environ['FPMON_LINES'], pid), 'w') as fd:
            fd.write('\n'.join(sorted(lines)))
    known = read_known(pid)
    new = [v for v in violations if not (v.get('key') and v['key'] in known)]
    for k, text in sorted(known.items()):
        print('KNOWN-FINDING: property={:s} {:s}'.format(pid, text))
    evidence = dict(
        property=pid, tier=tier, seed=seed, level='exploration', wall_s=round(wall, 2), violations=len(new),
        coverage=dict(
            evaluations=evaluations, distinct_nontrivial=len(distinct), rule=info['rule'],
            samples=samples[:5] or ['(none)'],
            events={k: counters[k] for k in sorted(counters, key=lambda x: (-counters[x], x))[:400]},
            workers=nshards, distinct_hash_seeds=len(results), cases_planned=ncases, truncated=truncated,
            library_steps_monitored=steps, library_lines_reached=len(lines), library_functions_reached=len(functions),
            functions=sorted(functions)),
        assumptions=info.get('assumptions', []))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
    print('{:s} [{:s}] seed={:d}: {:d} cases ({:d} distinct non-trivial), {:d} oracle checks, {:d} lines reached, {:.1f}s'
          .format(pid, tier, seed, evaluations, len(distinct), counters.get('oracle-checks', 0), len(lines), wall))
    if new:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        v = new[0]
        path = os.path.join(VERIF, 'replays', '{:s}-{:s}-{:d}-{:d}.json'.format(pid, tier, seed, v['case']))
        with open(path, 'w') as f:
            json.dump(dict(property=pid, tier=tier, seed=seed, **v), f, indent=1)
        for x in new[:3]:
            print('  case {:d}: {:s}'.format(x['case'], x['msg'][:1200]))
        print('VIOLATION property={:s} replay={:s}'.format(pid, path))
        return 1
    bad = list(errors) + list(inconclusive)
    missing = [e for e in info.get('required', []) if not counters.get(e)]
    if missing and tier in ('quick', 'thorough') and not os.environ.get('FPMON_CASES'):
        bad.append('monitored events never observed: {!s}'.format(missing))
    if not evaluations or not distinct:
        bad.append('nothing observed')
    if truncated and evaluations < ncases // 4:
        bad.append('only {:d} cases out of {:d} within the time allowed'.format(evaluations, ncases))
    if bad:
        print('INCONCLUSIVE property={:s}'.format(pid))
        for b in bad:
            print('  ' + b)
        return 2
    print('HELD property={:s} on everything observed'.format(pid))
    return 0


def selftest():
    """The framework itself can be imported, and its watchdogs work."""
    scratch = tempfile.mkdtemp(prefix='fpmon-')
    try:
        return subprocess.call([PY, '-c', 'import sys; from fpmon import core; sys.exit(core.selftest())'], cwd=scratch,
                               env=child_env(1, scratch))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path):
    v = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix='fpmon-')
    code = ('import sys; from fpmon import core; sys.exit(core.replay({!r}))'.format(os.path.abspath(path)))
    try:
        return subprocess.call([PY, '-c', code], cwd=scratch, env=child_env(v['hashseed'], scratch))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
