"""Runner shared by all checks: cases, monitors' counters, verdicts, evidence.

A check module (vf/cNN.py) defines
  PROPERTY    id of the property
  RULE        how cases are made, and what makes one non-trivial
  FLOORS      {counter: minimum} - monitors that must have been reached
  cases(tier, seed) -> list of JSON-able dicts, each describing one case
  run_case(case, ctx) - run the real code, observe it, call ctx.check(...)
Optional:
  ASSUMPTIONS list of strings
  known(ctx)  - probe of known findings, see known_findings.txt

Verdicts are three-valued: exit 0 (held on everything explored), exit 1 and a
VIOLATION line, exit 2 (inconclusive: watchdog fired or a monitor was not
reached) or 3 (broken harness).
"""
import collections
import hashlib
import importlib
import json
import logging
import multiprocessing
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.environ.get('VERIF_DIR', '/verif')
REPO = os.environ.get('ANTICIPY_REPO', '/repo')
N_PROC = min(8, os.cpu_count() or 1)
CASE_WALL_S = 300   # watchdog, inconclusive when it fires
CHECK_WALL_S = 840  # ditto for the whole check


class Violation(Exception):
    """The monitor observed an execution that breaks the property"""


class Skip(Exception):
    """The case says nothing about the property (counted, never a verdict)"""


class Watchdog(BaseException):
    pass


class Ctx:
    """Monitor state of one case"""

    def __init__(self, case):
        self.case = case
        self.counters = collections.Counter()
        self.states = set()
        self.note = None

    def hit(self, name, n=1):
        self.counters[name] += n

    def state(self, *key):
        # An abstract state of the system seen by a monitor
        self.states.add('|'.join(str(k) for k in key))

    def check(self, cond, monitor, msg='', *args):
        self.counters[monitor] += 1
        if not cond:
            if callable(msg):
                msg = msg()
            raise Violation('{}: {}'.format(
                monitor, msg.format(*args) if args else msg))


def stable_seed(*parts):
    s = '|'.join(str(p) for p in parts)
    return int(hashlib.sha256(s.encode()).hexdigest()[:8], 16)


def load(prop):
    return importlib.import_module('vf.' + prop.lower())


def _alarm(signum, frame):
    raise Watchdog()


def _quiet():
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    import numpy as np
    np.seterr(all='ignore')


_MOD = None


def _run_one(arg):
    i, case = arg
    import numpy as np
    _quiet()
    np.random.seed(stable_seed('global', json.dumps(case, sort_keys=True)))
    ctx = Ctx(case)
    t0 = time.time()
    verdict, msg = 'held', ''
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_WALL_S)
    try:
        _MOD.run_case(case, ctx)
    except Skip as e:
        verdict, msg = 'skip', str(e)
    except Violation as e:
        verdict, msg = 'violated', str(e)
    except Watchdog:
        verdict, msg = 'inconclusive', 'watchdog after {} s'.format(CASE_WALL_S)
    except MemoryError:
        verdict, msg = 'inconclusive', 'out of memory'
    except (Exception, SystemExit) as e:
        # an exit would end the worker, and lose the case
        verdict = 'violated'
        msg = 'unexpected exception {}: {}\n{}'.format(
            type(e).__name__, e, traceback.format_exc())
    finally:
        signal.alarm(0)
    return (i, verdict, msg, dict(ctx.counters), list(ctx.states)[:200],
            ctx.note, time.time() - t0)


def read_known(prop):
    """'known:' entries of a property -> {key: description}"""
    path = os.path.join(VERIF, 'known_findings.txt')
    d = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property={} '.format(prop)):
                rest = line.split(' ', 2)[2]
                key, _, desc = rest.partition(' ')
                d[key.replace('key=', '')] = desc
    return d


def write_replay(prop, tier, seed, case, msg):
    folder = os.path.join(VERIF, 'replays')
    os.makedirs(folder, exist_ok=True)
    h = hashlib.sha256(
        json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(folder, '{}-{}.json'.format(prop, h))
    with open(path, 'w') as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, case=case,
                       message=msg), f, indent=1)
    return path


def selftest():
    """Setup: nothing to build, check that the tools are there"""
    import anticipy
    import numpy
    import pandas
    import scipy
    print('anticipy', os.path.dirname(anticipy.__file__), 'numpy',
          numpy.__version__, 'pandas', pandas.__version__, 'scipy',
          scipy.__version__)
    for f in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__)))):
        if f[0] == 'c' and f[1:3].isdigit():
            m = load(f[:-3])
            print(m.PROPERTY, len(m.cases('quick', 1)), 'quick cases')
    return 0


def main(argv):
    global _MOD
    if len(argv) < 2:
        print('usage: check <PROPERTY> quick|thorough|replay [file]')
        return 3
    prop, tier = argv[0], argv[1]
    t0 = time.time()
    if prop == 'selftest':
        return selftest()
    try:
        seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    except ValueError:
        seed = stable_seed(os.environ['VERIF_SEED'])
    _quiet()
    sys.setrecursionlimit(5000)
    import anticipy
    src = os.path.realpath(os.path.dirname(anticipy.__file__))
    if not src.startswith(os.path.realpath(REPO)):
        print('HARNESS-ERROR: anticipy imported from', src)
        return 3
    _MOD = load(prop)

    if tier == 'replay':
        d = json.load(open(argv[2]))
        r = _run_one((0, d['case']))
        print(r[1], r[2])
        if r[1] == 'violated':
            print('VIOLATION property={} replay={}'.format(prop, argv[2]))
            return 1
        return 0 if r[1] in ('held', 'skip') else 2

    assert tier in ('quick', 'thorough'), tier
    l_case = _MOD.cases(tier, seed)
    l_arg = list(enumerate(l_case))
    serial = getattr(_MOD, 'SERIAL', False)
    l_res = []
    timed_out = False
    if serial:
        for a in l_arg:
            l_res.append(_run_one(a))
    else:
        mp = multiprocessing.get_context('fork')
        with mp.Pool(N_PROC) as pool:
            it = pool.imap_unordered(_run_one, l_arg, chunksize=1)
            for _ in range(len(l_arg)):
                left = CHECK_WALL_S - (time.time() - t0)
                try:
                    l_res.append(it.next(timeout=max(left, 1)))
                except multiprocessing.TimeoutError:
                    timed_out = True
                    pool.terminate()
                    break
    l_res.sort(key=lambda r: r[0])

    counters = collections.Counter()
    verdicts = collections.Counter()
    states = set()
    for r in l_res:
        verdicts[r[1]] += 1
        counters.update(r[3])
        states.update(r[4])
    l_bad = [r for r in l_res if r[1] == 'violated']
    l_inc = [r for r in l_res if r[1] == 'inconclusive']

    # Known findings: dedicated probes, one per mechanism
    l_known = []
    d_known = read_known(prop)
    if hasattr(_MOD, 'known'):
        for key, fails, desc in _MOD.known():
            if fails and key in d_known:
                l_known.append((key, d_known[key]))
            elif fails:
                case = dict(known=key)
                l_bad.append((-1, 'violated', desc, {}, [], None, 0))
                l_case.append(case)

    distinct = set()
    for r in l_res:
        if r[1] == 'held' and sum(r[3].values()) > 0:
            distinct.add(json.dumps(l_case[r[0]], sort_keys=True))
    l_sample = []
    for r in l_res[:: max(1, len(l_res) // 5)][:6]:
        l_sample.append(dict(case=l_case[r[0]], verdict=r[1], observed=r[3],
                             note=r[5]))
    floors = getattr(_MOD, 'FLOORS', {})
    l_missed = [(k, v, counters.get(k, 0)) for k, v in floors.items()
                if counters.get(k, 0) < v]
    evidence = dict(
        property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=len(l_res),
            distinct_nontrivial=len(distinct),
            rule=_MOD.RULE,
            samples=l_sample,
            monitor_observations=dict(sorted(counters.items())),
            distinct_states_observed=len(states),
            states_sample=sorted(states)[:40],
            verdicts=dict(verdicts),
            skip_reasons=dict(collections.Counter(
                r[2] for r in l_res if r[1] == 'skip').most_common(10)),
            known_findings_observed=[k for k, _ in l_known],
            slowest_case_s=round(max([r[6] for r in l_res] or [0]), 2),
        ),
        assumptions=getattr(_MOD, 'ASSUMPTIONS', []),
        wall_s=round(time.time() - t0, 2),
        violations=len(l_bad))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)

    print('{} {} seed={}: {} cases, {} held, {} skipped, {} violated, '
          '{} inconclusive; {} monitor observations, {} states; {:.1f} s'
          .format(prop, tier, seed, len(l_res), verdicts['held'],
                  verdicts['skip'], len(l_bad), len(l_inc),
                  sum(counters.values()), len(states), time.time() - t0))
    for k, n in sorted(counters.items()):
        print('  observed {:>8} {}'.format(n, k))
    for key, desc in l_known:
        print('KNOWN-FINDING: property={} {} {}'.format(prop, key, desc))
    if l_bad:
        for r in l_bad[:12]:
            path = write_replay(prop, tier, seed, l_case[r[0]], r[2])
            print('--- {}'.format(r[2][:3000]))
            print('VIOLATION property={} replay={}'.format(prop, path))
        return 1
    if l_inc or timed_out or l_missed:
        for r in l_inc[:5]:
            print('INCONCLUSIVE case {}: {}'.format(
                json.dumps(l_case[r[0]])[:300], r[2]))
        if timed_out:
            print('INCONCLUSIVE: check watchdog fired')
        for k, v, n in l_missed:
            print('INCONCLUSIVE: monitor {} reached {} < {}'.format(k, n, v))
        return 2
    return 0
