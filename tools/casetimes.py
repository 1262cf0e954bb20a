"""Time every n-th case of a check: casetimes.py <module> <tier> <limit s> <stride>."""
import importlib
import json
import sys
import time
from multiprocessing import Pool

from mc import core
from mc.main import setup_quiet

name, tier, limit, stride = sys.argv[1], sys.argv[2], float(sys.argv[3]), int(sys.argv[4])
module = importlib.import_module('mc.checks.' + name)
cases = list(module.cases(tier))


def one(i):
    setup_quiet()
    stats = core.Stats()
    start = time.time()
    error = ''
    try:
        with core.Alarm(limit):
            module.run(core.decode(core.jsonable(cases[i])), stats)
    except BaseException as exc:
        error = repr(exc)[:100]
    core.cleanup_scratch()
    return i, time.time() - start, stats.counts.get('executions', 0), error


if __name__ == '__main__':
    with Pool(8) as pool:
        res = pool.map(one, range(0, len(cases), stride), chunksize=1)
    print(name, tier, len(cases), 'cases, estimated cpu', stride * sum(r[1] for r in res))
    for r in sorted(res, key=lambda r: -r[1])[:12]:
        print(r, json.dumps(core.jsonable(cases[r[0]]))[:220])
