"""C15 MultipartDb fidelity"""
import itertools
import os
import random
import types
import numpy as np
from mon import gen
from mon.checks.c14 import exact, seq, as_input, reused

CASES = dict(quick=8000, thorough=100000)
RULE = ('case = record stream (ids automatic or given) x part size around divisors x writer (create; Writer with parts out of order, empty parts, '
        'sparse numbers, forked processes in parallel) x load options (shuffle, keep_in_mem, rec_type) x several passes; overwrite/refuse histories; '
        'distinct = distinct (records, division to parts)')
NEED = dict(dbs=1000, parts=5000, parallel_writes=50, empty_parts=200, refused=200, overwritten=200, many_parts=10, passes=5000)
ASSUMPTIONS = ['ids given by the user are unique over the parts', 'order of records between parts is free']


def read_all(ctx, db, names, want, what):
    seen = set()
    n = 0
    for rec in db:
        n += 1
        ctx.check(rec.id in want, f'{what}: a record that was never written', id=rec.id)
        ctx.check(rec.id not in seen, f'{what}: a record comes twice', id=rec.id)
        seen.add(rec.id)
        for k, nm in enumerate(names):
            exact(ctx, getattr(rec, nm), want[rec.id][k], f'{what}: sequence is not the one written', id=rec.id, field=nm)
    ctx.check(n == len(want), f'{what}: records are lost', got=n, want=len(want))
    ctx.count('passes')


def par_write(writer, jobs, n_procs, tmp):
    """parts written by forked processes at the same time"""
    pids = []
    for p in range(n_procs):
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                for num, recs in jobs[p::n_procs]:
                    writer(num, iter(recs))
                code = 0
            except BaseException:
                import traceback
                (tmp / 'child.err').write_text(traceback.format_exc())
            finally:
                os._exit(code)
        pids.append(pid)
    return [os.waitpid(p, 0)[1] for p in pids]


def divide(rng, recs):
    """random division of records to parts"""
    parts = []
    i = 0
    while i < len(recs):
        k = rng.choice([0, 1, 2, rng.randint(1, 20)])
        parts.append(recs[i:i + k])
        i += k
    if rng.random() < 0.5:
        parts.insert(rng.randint(0, len(parts)), [])
    return parts


def write(ctx, rng, path, recs, ids, names, overwrite=False):
    from nlcodec.db import MultipartDb
    n = len(recs)
    route = rng.choice(['create', 'create', 'create_id', 'writer', 'parallel', 'with'])
    max_parts = rng.choice([1000, 1000, 10, 2, 100, 1])
    if route in ('create', 'create_id'):
        ps = rng.choice([1, 2, 3, n, max(1, n - 1), n + 1, max(1, n // 2), max(1, (n + 1) // 2), 10 ** 6])
        if route == 'create':
            src = iter([[as_input(rng, c) for c in r] for r in recs]) if rng.random() < 0.85 else reused(rng, recs)
            want = dict(enumerate(recs))
        else:
            src = iter([(i, [as_input(rng, c) for c in r]) for i, r in zip(ids, recs)])
            if rng.random() < 0.15:
                src = ((i, r) for i, r in zip(ids, reused(rng, recs)))
            want = dict(zip(ids, recs))
        if rng.random() < 0.3 and not isinstance(src, types.GeneratorType):
            src = list(src)
        db = MultipartDb.create(path=path if rng.random() < 0.5 else str(path), recs=src, field_names=names, has_id=route == 'create_id', overwrite=overwrite,
                                part_size=ps, max_parts=max_parts)
        n_parts = -(-n // ps)
        sizes = [ps] * (n_parts - 1) + [n - ps * (n_parts - 1)]
    else:
        parts = divide(rng, [(i, [as_input(rng, c) for c in r]) for i, r in zip(ids, recs)])
        want = dict(zip(ids, recs))
        nums = rng.sample(range(rng.choice([len(parts), len(parts) * 3, 1500])), len(parts)) if rng.random() < 0.5 else list(range(len(parts)))
        jobs = list(zip(nums, parts))
        rng.shuffle(jobs)
        ctx.count('empty_parts', sum(1 for p in parts if not p))
        w = MultipartDb.Writer(path, names, overwrite=overwrite, max_parts=max_parts)
        if route == 'parallel':
            codes = par_write(w, jobs, rng.choice([2, 3]), ctx.tmp)
            err = (ctx.tmp / 'child.err')
            ctx.check(not any(codes), 'parallel part writer fails', codes=codes, err=err.read_text() if err.exists() else '')
            w.close()
            ctx.count('parallel_writes')
        elif route == 'with':
            with w as w2:
                for num, rs in jobs:
                    w2(num, iter(rs))
        else:
            for num, rs in jobs:
                r = w(num, recs=iter(rs))
                if isinstance(r, tuple) and len(r) == 2:
                    ctx.check(r[1] == len(rs), 'writer reports another number of records', got=r[1], want=len(rs))
            w.close()
        db = MultipartDb.load(path)
        sizes = [len(p) for p in parts if p]
        n_parts = len(sizes)
    ctx.count('parts', n_parts)
    if n_parts > max_parts:
        ctx.count('many_parts')
    return db, want, sizes, route


def case(ctx):
    from nlcodec.db import MultipartDb, Db
    from nlcodec.db.batch import IdExample
    rng = ctx.rng
    names = rng.choice([['x', 'y'], ['x'], ['x', 'y', 'z']])
    ranges = [rng.choice(gen.RANGES[:14]) for _ in names]

    def records(n):
        return [[seq(rng, lo, hi, 8) for lo, hi in ranges] for _ in range(n)]

    n = rng.choice([1, 2, 3, 5, 12, 40, rng.randint(1, 60)])
    if ctx.i % 400 == 17:
        n = rng.choice([300, 1100, 1100, 2100])
        ctx.count('tails')
    recs = records(n)
    ids = rng.sample(range(0, 4 * n + 5), n) if rng.random() < 0.7 else [f'r{i}' for i in range(n)]
    path = ctx.tmp / rng.choice(['db', 'a/b/db', 'db.d', 'data [en-de]', 'd*b', '[a]/d?b', 'part-0.meta', 'd\u00fc x', '{db}%s'])
    pre = rng.random()
    if pre < 0.2:
        path.mkdir(parents=True)
    db, want, sizes, route = write(ctx, rng, path, recs, ids, names)
    ctx.count('dbs')

    def check_all(db, want, what):
        ctx.equal(len(db), len(want), f'{what}: len is not the number of records')
        read_all(ctx, db, names, want, what)

    check_all(db, want, f'{route}')
    for _ in range(rng.randint(1, 3)):
        kw = dict(keep_in_mem=rng.random() < 0.5, shuffle=rng.random() < 0.5)
        random.seed(rng.random())
        d = MultipartDb.load(path if rng.random() < 0.5 else str(path), **kw)
        check_all(d, want, f'{route} loaded {kw}')
        if rng.random() < 0.5:
            check_all(d, want, f'{route} loaded {kw}, again')
        # two passes at the same time
        if rng.random() < 0.2:
            a, b = iter(d), iter(d)
            got = [[], []]
            live = [0, 1]
            while live:
                k = rng.choice(live)
                try:
                    got[k].append(next((a, b)[k]))
                except StopIteration:
                    live.remove(k)
            for k in (0, 1):
                read_all(ctx, got[k], names, want, f'{route}: interleaved passes')
    if names == ['x', 'y']:
        d = MultipartDb.load(path, rec_type=IdExample)
        read_all(ctx, d, names, want, 'rec_type')
    # refuses to overwrite; existing data unharmed
    if rng.random() < 0.6:
        e = ctx.raises(lambda: MultipartDb.create(path, iter(records(2)), names), 'existing data is written over without being asked')
        e = ctx.raises(lambda: MultipartDb.Writer(path, names), 'existing data is written over without being asked')
        check_all(MultipartDb.load(path), want, 'after the refused write')
        ctx.count('refused')
    if rng.random() < 0.6:
        n2 = rng.choice([1, 2, n, n + 3, max(1, n // 2)])
        recs2 = records(n2)
        ids2 = [f'new{i}' for i in range(n2)] if rng.random() < 0.5 else rng.sample(range(4 * n2), n2)
        (path / 'stray').write_text('x') if rng.random() < 0.2 else None
        db2, want2, sizes2, route2 = write(ctx, rng, path, recs2, ids2, names, overwrite=True)
        check_all(db2, want2, f'overwritten by {route2}')
        check_all(MultipartDb.load(path), want2, f'overwritten by {route2}, loaded')
        ctx.count('overwritten')
    # slices
    m, size = rng.randint(0, 30), rng.randint(1, 12)
    segs = [list(s) for s in MultipartDb.slices(iter(range(m)), size)]
    ctx.equal([x for s in segs for x in s], list(range(m)), 'slices lose or repeat items', m=m, size=size)
    ctx.equal([len(s) for s in segs], [size] * (m // size) + ([m % size] if m % size else []), 'slices are not of the size', m=m, size=size)
    ctx.sig(route, sizes, [str(i) for i in ids], recs)
    if ctx.i < 6:
        ctx.sample(dict(route=route, records=n, part_sizes=sizes[:20], ids=[str(i) for i in ids[:5]]))
