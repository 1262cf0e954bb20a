"""
C12: the save file of a search is the old or the new complete state, whatever
file system call of the search the process is killed in, or which one fails.

A recording run under the controlled loop gives the list of file system calls
and the contents of the save file between the saves. Every fault is then injected
in a forked process which repeats the run.
"""
import errno
import os
import shutil
import signal
import tempfile

from nodefinder import search, io

from .. import shim
from ..aio import run_controlled, PlainWorld
from ..child import in_child
from ..core import require, scratch_dir
from ..compare import canon_state
from ..search_world import INF
from .c14_start_state import build_state

ID = 'C12'
LEVEL = 'fault_enumeration'
PRELOAD = True
TECHNIQUE = 'exhaustive fault injection: every file system call of the real search x kill before / after, torn writes, failing with errno (LD_PRELOAD shim, controlled loop)'
RULE = ('An evaluation is one run of a search with one fault (call index, kind of fault). It is non-trivial if the fault was hit. Distinct by scenario, call and fault. '
        'The save file must then equal the contents before or after the save in which the fault lies.')
BOUNDS = {
    'quick': '4 scenarios (new file, resumed file, other file, unreadable file), 4-6 saves each; 9 scenarios with the folder of temporary files on another file system; kill before each call, torn writes of 1, n/2, n-1 bytes, ENOSPC and EIO once, from a call on, and in all calls of one kind from a call on',
    'thorough': 'additionally kill after each call, torn writes at 40 lengths (multiples of at least 512 bytes), 5 errnos, 5 more scenarios: relative paths, two dimensions, large histories and refinement',
}
ASSUMPTIONS = [
    'the process is killed, the operating system is not: written data stay written',
    'removing a temporary file does not fail',
]
CASE_LIMIT = 600.
PARTS = 16

SCENARIOS = {
    'new': dict(before=None, load=False, path='abs'),
    'resume': dict(before='a', load=True, path='abs'),
    'other': dict(before='b', load=False, path='abs'),
    'garbage': dict(before='garbage', load=True, path='abs'),
    'relative': dict(before=None, load=False, path='rel'),
    'bare': dict(before='a', load=True, path='bare'),
    'large': dict(before=None, load=False, path='abs', mesh=3, dim=2, real=True),
    'stencil': dict(before='mesh', load=True, path='abs', stencil=True),
    'done': dict(before='done', load=True, path='bare', mesh=2),
}
QUICK = ('new', 'resume', 'other', 'garbage')
ERRNOS = {'quick': ('ENOSPC', 'EIO'), 'thorough': ('ENOSPC', 'EIO', 'EACCES', 'EROFS', 'EDQUOT')}


def cases(tier):
    for name in SCENARIOS if tier == 'thorough' else QUICK:
        yield dict(scenario=name, fault='none')
    for name in SCENARIOS:
        yield dict(scenario=name, fault='devices')
    for name in SCENARIOS if tier == 'thorough' else QUICK:
        faults = ['kill', 'torn', 'torn_fine', 'kill_after'] if tier == 'thorough' else ['kill', 'torn']
        for err in ERRNOS[tier]:
            faults += ['fail ' + err, 'fail_from ' + err, 'fail_same ' + err]
        for fault in faults:
            for part in range(PARTS):
                yield dict(scenario=name, fault=fault, part=part)


class Folder:
    """The folder of a run, prepared as the scenario says."""
    OTHERS = {'other.txt': b'untouched', 'save.hdf5.bak': b'backup', 'tmpfile': b'xyz'}

    def __init__(self, name):
        self.spec = SCENARIOS[name]
        self.base = os.path.join(scratch_dir(), 'c12')
        self.tmp = os.path.join(self.base, 'tmp')
        self.work = os.path.join(self.base, 'work')
        shutil.rmtree(self.base, ignore_errors=True)
        os.makedirs(self.tmp)
        os.makedirs(os.path.join(self.work, 'sub'))
        self.dir = os.path.join(self.work, 'sub') if self.spec['path'] != 'bare' else self.work
        self.file = os.path.join(self.dir, 'save.hdf5')
        self.arg = {'abs': self.file, 'rel': 'sub/save.hdf5', 'bare': 'save.hdf5'}[self.spec['path']]
        for fname, data in self.OTHERS.items():
            with open(os.path.join(self.dir, fname), 'wb') as file:
                file.write(data)
        before = self.spec['before']
        if before == 'garbage':
            with open(self.file, 'wb') as file:
                file.write(b'garbage' * 1000)
        elif before is not None:
            io.save(build_state(before), self.file)

    def content(self):
        """Canonical content of the save file."""
        return content(self.file)

    def leftovers(self):
        expected = set(self.OTHERS) | {'save.hdf5'}
        if self.dir == self.work:
            expected.add('sub')
        res = sorted(set(os.listdir(self.dir)) - expected)
        res += sorted(os.listdir(self.tmp))
        if self.dir != self.work:
            res += sorted(set(os.listdir(self.work)) - {'sub'})
        return res

    def check_others(self, **where):
        for fname, data in self.OTHERS.items():
            path = os.path.join(self.dir, fname)
            require(os.path.exists(path), 'the file {} is gone'.format(fname), **where)
            with open(path, 'rb') as file:
                require(file.read() == data, 'the file {} is altered'.format(fname), **where)


def content(path):
    if not os.path.exists(path):
        return 'absent'
    with open(path, 'rb') as file:
        data = file.read()
    if data == b'garbage' * 1000:
        return 'garbage'
    try:
        state = canon_state(io.load(path))
    except Exception as exc:  # pylint: disable=broad-except
        return 'unreadable ({} bytes): {!r}'.format(len(data), exc)
    # Running simplices are stored as queued ones: the order is that of a set
    return repr(sorted(state.items(), key=lambda kv: kv[0]))


def search_run(folder, on_evaluation=None):
    """Run the search of the scenario; every evaluation takes 3 (virtual) seconds."""
    spec = folder.spec
    world = PlainWorld()
    dim = spec.get('dim', 1)

    def potential(x):
        world.activity += 1
        world.loop.vtime += 3.
        if on_evaluation is not None:
            on_evaluation()
        return sum(abs(float(v) - 0.8) for v in x)

    kwargs = dict(
        limits=[[0., 4.]] * dim, periodic=True, save_file=folder.arg, load=spec['load'], load_quiet=True, save_delay=5.,
        initial_mesh_size=spec.get('mesh', 4), gap_threshold=0.5, feature_size=0.375, num_minimize_parallel=1,
        force_initial_mesh=True, refinement_stencil='auto' if spec.get('stencil') else None,
        nelder_mead_kwargs=dict(xtol=0.02, ftol=0.02, keep_history=True) if spec.get('real') else dict(xtol=INF, ftol=INF)
    )
    return run_controlled(world, lambda: search.run_async(potential, **kwargs))


def enter(folder):
    os.chdir(folder.work)
    os.environ['TMPDIR'] = folder.tmp
    tempfile.tempdir = None
    shim.lib().fsshim_prefix(folder.base.encode())


_RECORDED = {}


def recording(name):
    """The calls of a run without faults, and the contents of the save file in between."""
    if name in _RECORDED:
        return _RECORDED[name]
    folder = Folder(name)

    def func():
        enter(folder)
        rest = [(0, folder.content())]

        def on_evaluation():
            rest.append((shim.lib().fsshim_count(), folder.content()))
        shim.lib().fsshim_arm(shim.RECORD, -1, -1, 0)
        kind, val = search_run(folder, on_evaluation)
        rest.append((shim.lib().fsshim_count(), folder.content()))
        log = shim.log()
        return kind, repr(val) if kind == 'exception' else None, rest, log
    kind, out = in_child(func, 60)
    require(kind == 'ok', 'the search does not run: {} {}'.format(kind, out))
    require(out[0] == 'result', 'the search fails: {}'.format(out[:2]))
    require(not folder.leftovers(), 'files are left behind: {}'.format(folder.leftovers()))
    folder.check_others()
    rest, log = out[2:]
    require(rest[-1][1] == folder.content(), 'the file changes after the end of the search')
    for count, cont in rest[1:]:
        ok = cont.startswith('[') or cont == rest[0][1]
        require(ok, 'between two saves, the save file is {}'.format(cont[:100]))
    require(rest[-1][1].startswith('['), 'no state is saved by the search')
    _RECORDED[name] = (rest, log)
    return _RECORDED[name]


def faults(case, log):
    """All (call, mode, torn length, errno, allow success) of a case."""
    kind, _, err = case['fault'].partition(' ')
    code = getattr(errno, err) if err else 0
    for idx, (call, _, size) in enumerate(log):
        if kind == 'kill':
            yield idx, shim.KILL_BEFORE, -1, 0
        elif kind == 'kill_after':
            yield idx, shim.KILL_AFTER, -1, 0
        elif kind in ('torn', 'torn_fine'):
            if size > 1:
                lengths = {1, size // 2, size - 1}
                if kind == 'torn_fine':
                    lengths = set(range(512, size, max(512, size // 40))) - lengths
                for length in sorted(lengths):
                    yield idx, shim.TORN, length, 0
        elif kind == 'fail':
            if call != 'unlink':
                yield idx, shim.FAIL, -1, code
        elif kind == 'fail_from':
            if size >= 0:
                yield idx, shim.FAIL_FROM, -1, code
        elif kind == 'fail_same':
            # for instance: files can be created, but not written
            if call != 'unlink':
                yield idx, shim.FAIL_SAME, -1, code


def run(case, stats):
    if case['fault'] == 'devices':
        run_devices(case, stats)
        return
    rest, log = recording(case['scenario'])
    if case['fault'] == 'none':
        stats.sample(dict(case, calls=[x[0] for x in log][:200], saves=len({x[1] for x in rest})))
        stats.add('calls', len(log))
        stats.add('file_states', len({x[1] for x in rest}))
        stats.evaluation()
        # at least: the initial state, in between, and the final one
        require(len({x[1] for x in rest}) >= 3, 'the state is not saved periodically')
        return
    for num, fault in enumerate(faults(case, log)):
        if 'num' in case:
            if num != case['num']:
                continue
        elif num % PARTS != case['part']:
            continue
        run_fault(case, stats, rest, log, num, fault)


def run_devices(case, stats):
    """The folder for temporary files belongs to another file system: nothing can be moved from there."""
    folder = Folder(case['scenario'])
    other = tempfile.mkdtemp(prefix='nfmc_', dir='/tmp')
    try:
        folder.tmp = other
        stats.add('other_devices', os.stat(other).st_dev != os.stat(folder.dir).st_dev)

        def func():
            enter(folder)
            kind, val = search_run(folder)
            return kind, repr(val) if kind == 'exception' else None
        kind, out = in_child(func, 60)
        stats.evaluation()
        stats.nontrivial((case['scenario'], 'devices'))
        require(kind == 'ok' and out[0] == 'result', 'the search fails: {} {}'.format(kind, out))
        left = folder.leftovers()
        require(not left, 'files are left behind: {}'.format(left))
        folder.check_others()
        require(folder.content().startswith('['), 'the save file is {}'.format(folder.content()[:100]))
    finally:
        shutil.rmtree(other, ignore_errors=True)


def run_fault(case, stats, rest, log, num, fault):
    idx, mode, length, code = fault
    folder = Folder(case['scenario'])

    def func():
        enter(folder)
        shim.lib().fsshim_arm(mode, idx, length, code)
        between = []

        def on_evaluation():
            # the file during the search
            if mode == shim.FAIL:
                between.append((shim.lib().fsshim_count() > idx, folder.content()))
        kind, val = search_run(folder, on_evaluation)
        hit = shim.lib().fsshim_count() > idx
        shim.lib().fsshim_disarm()
        return kind, repr(val) if kind == 'exception' else None, hit, between

    kind, out = in_child(func, 60)
    stats.evaluation()
    where = dict(call_number=idx, call=list(log[idx]), fault=[mode, length, code], num=num)
    text = 'call {} ({}), {}'.format(idx, log[idx][0], case['fault'])
    require(kind != 'hang', 'the search hangs after {}'.format(text), **where)
    found = folder.content()
    # the rest points around the call
    before = [c for count, c in rest if count <= idx][-1]
    after = [c for count, c in rest if count > idx][0]
    folder.check_others(**where)
    if mode in (shim.KILL_BEFORE, shim.KILL_AFTER, shim.TORN):
        require(kind == 'died' and out == signal.SIGKILL, 'machinery: the fault {} was not hit: {} {}'.format(text, kind, out))
        stats.nontrivial((case['scenario'], fault))
        require(found in (before, after), 'killed in {}: the save file is neither the old nor the new state, but {}'.format(text, found[:200]), **where)
        stats.outcome((case['scenario'], found == before, found))
        return
    require(kind == 'ok', 'the search {} after {}'.format(kind, text), **where)
    require(out[2], 'machinery: the fault {} was not hit'.format(text))
    stats.nontrivial((case['scenario'], fault))
    failed = [cont for hit, cont in out[3] if hit]
    for cont in failed[:1]:
        require(cont in (before, after), 'after failing {}, the save file is neither the old nor the new state, but {}'.format(text, cont[:200]), **where)
    if len(out[3]) == len(rest) - 2:
        # the next save after the failing one is not affected
        later = False
        for (hit, cont), (_, want) in zip(out[3], rest[1:]):
            later = later or hit and want not in (before, after)
            if later:
                require(cont == want, 'after failing {}, the search does not save any more'.format(text), **where)
                stats.add('later_saves')
    left = folder.leftovers()
    require(not left, 'files are left behind after {}: {}'.format(text, left), **where)
    if out[0] == 'result':
        # the failing call did not matter: everything is saved
        stats.add('tolerated_failures')
        stats.seen('tolerated_calls', log[idx][0])
        require(found == rest[-1][1], '{} fails, and the final state is not in the save file, but the search reports no error'.format(text), **where)
    else:
        require(mode != shim.FAIL or idx >= rest[-2][0], 'failing {} lets the whole search fail, although it could be saved later: {}'.format(text, out[1]), **where)
        require(out[0] == 'exception', 'the search ended with {}'.format(out), **where)
        require(found in (before, after), 'after failing {}, the save file is neither the old nor the new state, but {}'.format(text, found[:200]), **where)
    stats.outcome((case['scenario'], out[0], found == before))


def finish(stats, tier):
    assert stats.counts.get('file_states', 0) >= 12, 'vacuous exploration'
