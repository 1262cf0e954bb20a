"""
Runs the check of one property: enumerates its cases over worker processes,
writes the evidence file, and reports violations.
"""
import argparse
import importlib
import json
import logging
import multiprocessing as mp
import multiprocessing.connection
import os
import signal
import sys
import time
import traceback
import warnings

from . import core

CASE_LIMIT = 100.  # seconds for one case, before it counts as a hang
WATCHDOG = 60.  # additional seconds before the worker is killed


def setup_quiet():
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    sys.unraisablehook = lambda *_: None


def load_check(prop):
    for name in sorted(os.listdir(os.path.join(core.VERIF, 'mc', 'checks'))):
        if name.lower().startswith(prop.lower() + '_') and name.endswith('.py'):
            return importlib.import_module('mc.checks.' + name[:-3])
    raise SystemExit('no check for property {}'.format(prop))


def load_known(prop):
    """Open entries of the known findings file for a property: {key: text}."""
    res = {}
    path = os.path.join(core.VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        with open(path) as file:
            for line in file:
                words = line.split(None, 3)
                if len(words) == 4 and words[0] == 'open:' and words[1] == 'property=' + prop:
                    assert words[2].startswith('key='), line
                    res[words[2][4:]] = words[3].strip()
    return res


def run_case(module, case, stats, known):
    """Run one case; returns None or a dict which describes the violation."""
    limit = getattr(module, 'CASE_LIMIT', CASE_LIMIT)
    try:
        with core.Alarm(limit):
            # the same form of case for a run and a replay
            module.run(core.decode(core.jsonable(case)), stats)
    except core.Violation as exc:
        if exc.key is not None and exc.key in known:
            stats.known[exc.key] = exc.message
            return None
        new_case = dict(case)
        if exc.schedule is not None:
            new_case['schedule'] = exc.schedule
        return dict(
            case=core.jsonable(new_case), message=exc.message, key=exc.key,
            detail=core.jsonable(exc.detail)
        )
    except core.Hang as exc:
        return dict(
            case=core.jsonable(case), message='hang: {}'.format(exc), key=None,
            detail=dict(traceback=traceback.format_exc())
        )
    except BaseException as exc:  # pylint: disable=broad-except
        # On the unchanged tree no case raises: an exception is a change of
        # behaviour which the property does not allow.
        return dict(
            case=core.jsonable(case),
            message='unexpected {}: {}'.format(type(exc).__name__, exc),
            key=None, detail=dict(traceback=traceback.format_exc())
        )
    return None


def worker(idx, module, cases, known, counter, current, stop, chunk, conn):
    """Worker process: takes chunks of cases until none are left."""
    setup_quiet()
    stats = core.Stats()
    violations = []
    try:
        if hasattr(module, 'init_worker'):
            module.init_worker()
        while not stop.value:
            with counter.get_lock():
                start = counter.value
                counter.value += chunk
            if start >= len(cases):
                break
            for i in range(start, min(start + chunk, len(cases))):
                if stop.value:
                    break
                current[2 * idx] = i
                current[2 * idx + 1] = time.time()
                stats.add('cases')
                res = run_case(module, cases[i], stats, known)
                if res is not None:
                    violations.append(res)
                    stop.value = 1
                    break
            current[2 * idx] = -1
    finally:
        current[2 * idx] = -1
        core.cleanup_scratch()
    conn.send((stats, violations))
    conn.close()


def run_all(module, cases, known, jobs):
    """Run all cases, returns (stats, violations)."""
    stats = core.Stats()
    violations = []
    jobs = max(1, min(jobs, len(cases)))
    counter = mp.Value('q', 0)
    stop = mp.Value('b', 0)
    current = mp.Array('d', [-1, 0] * jobs, lock=False)
    chunk = max(1, min(64, len(cases) // (jobs * 16)))
    limit = getattr(module, 'CASE_LIMIT', CASE_LIMIT) + WATCHDOG
    procs = []
    for i in range(jobs):
        recv, send = mp.Pipe(duplex=False)
        proc = mp.Process(
            target=worker,
            args=(i, module, cases, known, counter, current, stop, chunk, send)
        )
        proc.start()
        send.close()
        procs.append((proc, recv))
    pending = dict(enumerate(procs))
    while pending:
        ready = mp.connection.wait([recv for _, recv in pending.values()], timeout=1.)
        for i, (proc, recv) in list(pending.items()):
            if recv in ready:
                case_idx = int(current[2 * i])
                try:
                    sub_stats, sub_violations = recv.recv()
                    stats.merge(sub_stats)
                    violations.extend(sub_violations)
                except EOFError:
                    proc.join()
                    if case_idx >= 0:
                        violations.append(dict(
                            case=core.jsonable(cases[case_idx]), key=None,
                            message='the process running the case died (exit code {})'.format(proc.exitcode),
                            detail={}
                        ))
                        stop.value = 1
                    else:
                        raise RuntimeError('worker failed with exit code {}'.format(proc.exitcode))
                proc.join()
                del pending[i]
            elif current[2 * i] >= 0 and time.time() - current[2 * i + 1] > limit:
                case_idx = int(current[2 * i])
                proc.kill()
                proc.join()
                violations.append(dict(
                    case=core.jsonable(cases[case_idx]), key=None,
                    message='hang: the process running the case did not answer', detail={}
                ))
                stop.value = 1
                del pending[i]
    return stats, violations


def coverage(module, stats, tier, num_cases):
    """The coverage part of the evidence file."""
    cov = {}
    counts = dict(stats.counts)
    samples = core.jsonable(stats.samples[:6])
    level = module.LEVEL
    if level in ('exploration', 'fault_enumeration'):
        cov['evaluations'] = counts.pop('evaluations', 0)
        cov['distinct_nontrivial'] = len(stats.sets.get('distinct_nontrivial', ()))
        cov['rule'] = module.RULE
    elif level == 'model_checking':
        cov['states'] = len(stats.sets.get('states', ()))
        cov['transitions'] = counts.pop('transitions', 0)
        cov['traces_validated_against_impl'] = counts.pop('traces', 0)
        cov['rule'] = module.RULE
    cov['samples'] = samples
    capped = counts.get('capped_trees', 0)
    cov['exhaustive'] = not capped
    cov['bounds'] = module.BOUNDS.get(tier, '') if isinstance(module.BOUNDS, dict) else module.BOUNDS
    if 'outcomes' in stats.sets:
        cov['distinct_outcomes'] = len(stats.sets['outcomes'])
    known_keys = {'distinct_nontrivial', 'states', 'outcomes'}
    for key, val in stats.sets.items():
        if key not in known_keys:
            cov['distinct_' + key] = len(val)
    for key, val in sorted(counts.items()):
        cov['num_' + key if not key.startswith('capped') else key] = val
    return cov


def write_evidence(prop, module, stats, tier, num_cases, wall, violations):
    path = os.path.join(core.VERIF, 'evidence', prop + '.json')
    os.makedirs(os.path.dirname(path), exist_ok=True)
    data = dict(
        property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1),
        level=module.LEVEL, coverage=coverage(module, stats, tier, num_cases),
        assumptions=list(getattr(module, 'ASSUMPTIONS', ())),
        wall_s=round(wall, 2), violations=len(violations)
    )
    with open(path, 'w') as file:
        json.dump(data, file, indent=1)
    return data


def write_replay(prop, violation):
    out = os.path.join(core.VERIF, 'replays', prop)
    os.makedirs(out, exist_ok=True)
    name = '{:016x}.json'.format(core.digest(json.dumps(violation['case'], sort_keys=True) + violation['message']))
    path = os.path.join(out, name)
    with open(path, 'w') as file:
        json.dump(dict(property=prop, **violation), file, indent=1)
    return path


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('prop')
    parser.add_argument('--thorough', action='store_true')
    parser.add_argument('--replay')
    parser.add_argument('--case', type=int)
    parser.add_argument('--jobs', type=int, default=0)
    parser.add_argument('--list', action='store_true')
    args = parser.parse_args()
    tier = 'thorough' if args.thorough else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'

    setup_quiet()
    import nodefinder
    repo = os.path.realpath(core.REPO)
    if not os.path.realpath(nodefinder.__file__).startswith(repo + os.sep):
        print('nodefinder is imported from {}, not {}'.format(nodefinder.__file__, repo))
        return 3
    module = load_check(args.prop)
    prop = module.ID
    if getattr(module, 'PRELOAD', None) and 'NFMC_PRELOADED' not in os.environ:
        from .shim import build_shim
        os.environ['LD_PRELOAD'] = build_shim()
        os.environ['NFMC_PRELOADED'] = '1'
        os.execv(sys.executable, [sys.executable, '-m', 'mc.main'] + sys.argv[1:])
    known = load_known(prop)

    if args.replay:
        with open(args.replay) as file:
            data = json.load(file)
        try:
            res = run_case(module, core.decode(data['case']), core.Stats(), {})
        finally:
            core.cleanup_scratch()
        if res is None:
            print('the property holds for this case')
            return 0
        print('VIOLATION property={} replay={}'.format(prop, args.replay))
        print(res['message'])
        print(json.dumps(res['detail'], indent=1).replace('\\n', '\n'))
        return 1

    start = time.time()
    cases = list(module.cases(tier))
    if args.list:
        print(len(cases), 'cases')
        return 0
    if args.case is not None:
        cases = [cases[args.case]]
    jobs = args.jobs or min(8, os.cpu_count() or 1)
    stats, violations = run_all(module, cases, known, jobs)
    if not violations and hasattr(module, 'finish'):
        # global assertions against vacuity, e.g. on the number of outcomes
        module.finish(stats, tier)
    wall = time.time() - start
    data = write_evidence(prop, module, stats, tier, len(cases), wall, violations)
    for key, _ in sorted(stats.known.items()):
        print('KNOWN-FINDING: property={} {}'.format(prop, known[key]))
    cov = data['coverage']
    brief = {k: v for k, v in cov.items() if isinstance(v, (int, bool))}
    print('{} {} {:.1f}s {}'.format(prop, tier, wall, json.dumps(brief)))
    if violations:
        for violation in violations[:3]:
            path = write_replay(prop, violation)
            print('VIOLATION property={} replay={}'.format(prop, path))
            print('  ' + violation['message'][:2000])
        return 1
    return 0


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
