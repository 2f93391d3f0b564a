"""C16 crash and fault safety of MultipartDb writes"""
import json
import os
import random
import resource
import shutil
import signal
import sys
import time
import traceback
from mon import core

LEVEL = 'fault_enumeration'
CASES = dict(quick=160, thorough=1600)
RULE = ('case = one write scenario (create / Writer / with-block; fresh, over empty dir, overwrite of another database or of a crashed one); for it '
        'EVERY file-system operation seen by the audit hook is a fault point, hit in turn by an exception and by os._exit; in addition every record '
        'of the stream raises, files are truncated at sampled byte limits (RLIMIT_FSIZE), and SIGKILL comes at random times; directories are listed in the order of the system, by name with _SUCCESS last or at random; after each the path is '
        'loaded and compared with the complete old/new contents, then overwritten; distinct = distinct (scenario, fault, what load gave)')
NEED = dict(faults=2000, load_refused=500, load_complete=100, recovered=1500, kills=50, truncations=200, record_errors=200, point_open=100, dir_orders=60)
ASSUMPTIONS = ['process crash and failed/partial writes; reordering of cached writes by a power loss is not simulated']
EVENTS = {'open', 'os.mkdir', 'os.remove', 'os.rmdir', 'os.rename', 'os.link', 'os.symlink', 'os.truncate', 'os.listdir', 'os.scandir',
          'shutil.rmtree', 'shutil.move', 'shutil.copyfile', 'os.chmod', 'os.utime'}


class Injected(OSError):
    pass


class RecordError(Exception):
    pass


def make_recs(tag, n, width=3):
    return [[[tag * 1000 + i] * (i % width + 1), [tag, i, 7]] for i in range(n)]


def stream(recs, fail_at=None, delay=0):
    for i, r in enumerate(recs):
        if i == fail_at:
            raise RecordError(f'record {i}')
        if delay:
            time.sleep(delay)
        yield r
    if fail_at is not None and fail_at >= len(recs):
        raise RecordError('at the end')


class Listing:
    """the entries of a directory in another order: POSIX leaves it open"""

    def __init__(self, it, key):
        with it:
            self.entries = sorted(it, key=key)
        self.it = iter(self.entries)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)


def order_dirs(seed):
    if not seed:
        return

    def key(e):
        name = os.fsdecode(e if isinstance(e, (str, bytes)) else e.name)
        if seed == 'success last':
            return (name.startswith('_'), name)
        return random.Random(f'{seed} {name}').random()
    scan, ls = os.scandir, os.listdir
    os.scandir = lambda *a, **k: Listing(scan(*a, **k), key)
    os.listdir = lambda *a, **k: sorted(ls(*a, **k), key=key)


def do_write(sc, path, fail_at=None, delay=0):
    from nlcodec.db import MultipartDb
    recs = make_recs(2, sc['n'])
    if sc['route'] == 'create':
        MultipartDb.create(path, stream(recs, fail_at, delay), field_names=['x', 'y'], overwrite=sc['overwrite'], part_size=sc['part_size'])
    else:
        jobs = []
        for k, i in enumerate(range(0, sc['n'], sc['part_size'])):
            jobs.append((k, [(j, recs[j]) for j in range(i, min(sc['n'], i + sc['part_size']))]))
        it = stream([j for j in jobs], None)

        def part(k, rs):
            lo = rs[0][0]
            return stream(rs, fail_at - lo if fail_at is not None and lo <= fail_at <= lo + len(rs) else None, delay)
        if sc['route'] == 'with':
            with MultipartDb.Writer(path, ['x', 'y'], overwrite=sc['overwrite']) as w:
                for k, rs in it:
                    w(k, part(k, rs))
        else:
            w = MultipartDb.Writer(path, ['x', 'y'], overwrite=sc['overwrite'])
            for k, rs in it:
                w(k, part(k, rs))
            w.close()


def child(sc, path, status, fault):
    """runs the write in a forked process with the fault. status: what the write told to its caller"""
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        return pid
    code = 0
    try:
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        order_dirs(sc['dir_order'])
        sfd = os.open(status, os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
        n = [0]
        log = []
        root = str(path)
        on = [True]

        def hook(event, args):
            if not on[0] or event not in EVENTS or not args:
                return
            p = args[0]
            if event.startswith('open') or event in EVENTS:
                try:
                    p = os.fsdecode(p) if not isinstance(p, int) else os.readlink(f'/proc/self/fd/{p}')
                except (TypeError, ValueError, OSError):
                    return
                if len(args) > 1 and event in ('os.remove', 'os.rmdir', 'os.mkdir') and isinstance(args[-1], int) and args[-1] >= 0:
                    try:  # dir_fd form used by rmtree
                        p = os.path.join(os.readlink(f'/proc/self/fd/{args[-1]}'), p)
                    except OSError:
                        pass
                if not os.path.isabs(p):
                    p = os.path.abspath(p)
            if not p.startswith(root):
                # relative name within rmtree: count all deletions
                if event not in ('os.remove', 'os.rmdir'):
                    return
            n[0] += 1
            log.append(event)
            if fault['kind'] in ('exc', 'exit') and n[0] == fault['at']:
                if fault['kind'] == 'exit':
                    os._exit(9)
                raise Injected(5, 'injected')
        kw = {}
        if fault['kind'] == 'record':
            kw['fail_at'] = fault['at']
        if fault['kind'] == 'kill':
            kw['delay'] = 0.0005
        if fault['kind'] == 'trunc':
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
            resource.setrlimit(resource.RLIMIT_FSIZE, (fault['at'], hard))
        sys.addaudithook(hook)
        try:
            do_write(sc, path, **kw)
            told = 'returned'
        except BaseException as e:
            told = f'raised {type(e).__name__}'
        on[0] = False
        if fault['kind'] == 'trunc':
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        os.write(sfd, json.dumps(dict(told=told, n=n[0], log=log)).encode())
    except BaseException:
        code = 77
        with open(str(status) + '.err', 'w') as f:
            f.write(traceback.format_exc())
    finally:
        os._exit(code)


def contents(db):
    return sorted((int(r.id), [int(v) for v in r.x], [int(v) for v in r.y]) for r in db)


def expected(tag, n):
    return [(i, x, y) for i, (x, y) in enumerate(make_recs(tag, n))]


def prepare(sc, path):
    from nlcodec.db import MultipartDb
    shutil.rmtree(path, ignore_errors=True)
    if sc['before'] == 'emptydir':
        path.mkdir(parents=True)
    elif sc['before'] == 'db':
        MultipartDb.create(path, iter(make_recs(1, sc['old_n'])), field_names=['x', 'y'], part_size=sc['old_part'])
    elif sc['before'] == 'crashed':
        try:
            MultipartDb.create(path, stream(make_recs(1, sc['old_n']), fail_at=sc['old_n'] - 1), field_names=['x', 'y'], part_size=sc['old_part'])
        except RecordError:
            pass


def case(ctx):
    from nlcodec.db import MultipartDb
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 5, 8, 14])
    before = rng.choice(['none', 'emptydir', 'db', 'db', 'crashed'])
    old_n = rng.choice([1, 3, 6, 10])
    sc = dict(n=n, part_size=rng.choice([1, 2, 3, n, n + 1]), route=rng.choice(['create', 'create', 'writer', 'with']), before=before,
              old_n=old_n, old_part=rng.choice([1, 2, 3, old_n]), overwrite=before in ('db', 'crashed'),
              dir_order=rng.choice([None, 'success last', 'success last', f'o{rng.random()}']))
    ctx.count('dir_orders', sc['dir_order'] is not None)
    path = ctx.tmp / 'top' / 'db'
    status = ctx.tmp / 'status'
    new = expected(2, n)
    old = expected(1, old_n) if before == 'db' else None

    def run(fault, kill_after=None):
        prepare(sc, path)
        status.unlink(missing_ok=True)
        pid = child(sc, path, status, fault)
        if kill_after is not None:
            time.sleep(kill_after)
            os.kill(pid, signal.SIGKILL)
        _, st = os.waitpid(pid, 0)
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77:
            raise core.HarnessError(open(str(status) + '.err').read())
        txt = status.read_text() if status.exists() else ''
        return json.loads(txt) if txt else None

    def judge(fault, st):
        try:
            dbs = [MultipartDb.load(path), MultipartDb.load(path, keep_in_mem=True)]
            ok = True
        except Exception as e:
            ok, why = False, type(e).__name__
        told = st['told'] if st else 'died'
        if not ok:
            ctx.count('load_refused')
            # (an error while listing a directory is swallowed by pathlib's glob: nothing is listed then, and load refuses)
            ctx.check(told != 'returned' or fault['kind'] == 'exc', 'the write told success but its data does not load', scenario=sc,
                      fault=fault, error=why)
            outcome = 'refused'
        else:
            for db in dbs:
                got = contents(db)
                ctx.check(got == new or (old is not None and got == old), 'an interrupted write is loaded as if it was complete', scenario=sc,
                          fault=fault, told=told, got_n=len(got), new_n=n, old_n=old_n if old else None, ids=[g[0] for g in got][:30])
                ctx.check(len(db) == len(got), 'len is not the number of records after an interrupted write', scenario=sc, fault=fault)
                if told == 'returned' and fault['kind'] != 'exc':
                    ctx.equal(got, new, 'the write told success but the data is not the new', scenario=sc, fault=fault)
            ctx.count('load_complete')
            outcome = 'new' if got == new else 'old'
        # recovery
        n3 = 4
        db = MultipartDb.create(path, iter(make_recs(3, n3)), field_names=['x', 'y'], overwrite=True, part_size=2)
        ctx.equal(contents(db), expected(3, n3), 'overwrite after the interruption does not give exactly the new data', scenario=sc, fault=fault)
        ctx.equal(contents(MultipartDb.load(path)), expected(3, n3), 'overwrite after the interruption does not give exactly the new data',
                  scenario=sc, fault=fault)
        ctx.count('recovered')
        ctx.sig(sc, fault['kind'], fault.get('at'), outcome, told)
        return outcome

    st = run(dict(kind='none'))
    ctx.check(st and st['told'] == 'returned', 'write without a fault fails', scenario=sc, status=st)
    ctx.equal(judge(dict(kind='none'), st), 'new', 'write without a fault')
    points = st['n']
    ctx.count('fault_points', points)
    for e in st['log']:
        ctx.count('point_' + e)
    for at in range(1, points + 1):
        for kind in ('exc', 'exit'):
            fault = dict(kind=kind, at=at, event=st['log'][at - 1])
            r = run(fault)
            if kind == 'exit':
                ctx.count('exits', r is None)
            judge(fault, r)
            ctx.count('faults')
    for at in range(0, n + 1):
        fault = dict(kind='record', at=at)
        r = run(fault)
        ctx.check(r and r['told'] != 'returned', 'an error in the records is swallowed', scenario=sc, fault=fault)
        judge(fault, r)
        ctx.count('record_errors')
        ctx.count('faults')
    for at in sorted({rng.choice([0, 1, 10, 50, 100, 200, 400, 600, 900, rng.randint(0, 1500)]) for _ in range(4 if not ctx.thorough else 10)}):
        fault = dict(kind='trunc', at=at)
        judge(fault, run(fault))
        ctx.count('truncations')
        ctx.count('faults')
    for _ in range(2 if not ctx.thorough else 5):
        t = rng.random() * (0.012 + 0.0012 * n)
        fault = dict(kind='kill', at=round(t, 4))
        judge(fault, run(fault, kill_after=t))
        ctx.count('kills')
        ctx.count('faults')
    if ctx.i < 4:
        ctx.sample(dict(scenario=sc, fault_points=points, events=st['log']))
