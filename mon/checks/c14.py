"""C14 Db fidelity"""
import random
import numpy as np
from mon import gen

CASES = dict(quick=6000, thorough=80000)
RULE = ('case = records (1-4 fields, ids automatic or given, lengths incl. 0, values from 23 ranges around the limits of integer types, lists or '
        'arrays of any dtype) stored by Db.create, or by SeqField builders with small buffers so that flushes fall everywhere; read back by id, '
        'iteration, shuffle, reload; one case in 1000 has 65,535-70,000 records, one in 500 crosses the real buffer size and 2^16/2^32-like offsets; distinct = distinct contents')
ASSUMPTIONS = ['all values of a field fit one 64 bit integer type (else an error is expected, never a loss)', 'ids are hashable and unique']
NEED = dict(records=20000, values=50000, flushes=2000, mixed_sign_fields=300, shuffled=300, reloads=500, wide_fields=300, at_limits=500, big=1, many=1, reused_objects=200)
MEM_LIMIT_GB = 8


def seq(rng, lo, hi, maxlen):
    n = rng.choice([0, 1, 1, 2, rng.randint(0, maxlen)])
    vals = [gen.int_value(rng, lo, hi) for _ in range(n)]
    return vals


def as_input(rng, vals):
    r = rng.random()
    if r < 0.6 or not vals:
        return list(vals)
    fits = [t for t in (np.uint8, np.int8, np.uint16, np.int16, np.int32, np.uint32, np.int64, np.uint64)
            if np.iinfo(t).min <= min(vals) and max(vals) <= np.iinfo(t).max]
    if not fits:
        return list(vals)
    a = np.array(vals, dtype=rng.choice(fits))
    if rng.random() < 0.2:
        return [x for x in a]  # list of numpy scalars
    return a


def reused(rng, recs):
    """records in the same objects, filled anew for each: as readers into a buffer do"""
    rec = [[] for _ in recs[0]]
    wide = np.zeros(max((len(c) for r in recs for c in r), default=0) + 1, dtype=np.int64)
    views = rng.random() < 0.5 and len(rec) == 1 and all(-2 ** 63 <= v < 2 ** 63 for r in recs for c in r for v in c)
    for r in recs:
        if views:  # one array, and views of it
            wide[:len(r[0])] = r[0]
            rec[0] = wide[:len(r[0])]
        else:
            for c, new in zip(rec, r):
                c[:] = new
        yield rec
    for c in rec:
        c[:] = [77] * len(c)


def narrowest(vals):
    mn, mx = min(vals, default=0), max(vals, default=0)
    sizes = [np.dtype(t).itemsize for t in (np.uint8, np.int8, np.uint16, np.int16, np.uint32, np.int32, np.uint64, np.int64)
             if np.iinfo(t).min <= mn and mx <= np.iinfo(t).max]
    return min(sizes) if sizes else None


def ints(a):
    return [int(x) for x in a]


def exact(ctx, arr, want, msg, **kw):
    arr = np.asarray(arr)
    ctx.check(len(arr) == 0 or arr.dtype.kind in 'iu', msg + ' (not integers)', dtype=str(arr.dtype), **kw)
    ctx.equal(ints(arr), list(want), msg, **kw)


def make_ids(rng, n):
    r = rng.random()
    if r < 0.3:
        ids = list(range(n))
        rng.shuffle(ids)
        return ids
    if r < 0.5:
        return rng.sample(range(-5, 10 * n + 10), n)
    if r < 0.7:
        return [f'id-{i}' for i in rng.sample(range(10 * n + 1), n)]
    if r < 0.85:
        return [(i % 3, i) for i in rng.sample(range(10 * n + 1), n)]
    return [i * 10 ** 12 for i in range(n)]


def case(ctx):
    from nlcodec.db import Db, SeqField, best_dtype
    rng = ctx.rng
    if ctx.i % 500 == 123:
        return big_case(ctx)
    if ctx.i % 1000 == 377:
        return many_case(ctx)
    n_fields = rng.choice([1, 2, 2, 3, 4])
    names = rng.choice([['x', 'y', 'z', 'w'], ['src', 'tgt', 'a', 'b'], ['y', 'x', 'count_', 'f1']])[:n_fields]
    n = rng.choice([1, 2, 3, 10, 40, rng.randint(1, 120)])
    ranges = [rng.choice(gen.RANGES) for _ in names]
    maxlen = rng.choice([1, 3, 10, 40])
    if ctx.i % 250 == 17:  # many records, or very long ones
        n, maxlen = rng.choice([(1100, 6), (2600, 3), (5, 1500), (3, 70000)])
        ctx.count('tails')
    recs = [[seq(rng, lo, hi, maxlen) for lo, hi in ranges] for _ in range(n)]
    if rng.random() < 0.3:  # magnitudes grow along the records
        for k, (lo, hi) in enumerate(ranges):
            for i in range(n // 2):
                recs[i][k] = [v % 100 for v in recs[i][k]]
    if rng.random() < 0.25:
        # the last sequences lie at the limit of an integer type, or across it
        k = rng.randrange(n_fields)
        lo, hi = ranges[k]
        limit = rng.choice([128, 256, 256, 256, 32768, 65536] if ctx.i % 10 == 0 else [128, 256, 256])
        start = max(0, limit - rng.choice([0, 1, 2, 5, rng.randint(0, 60)]))
        if n == 1:
            recs.append([seq(rng, a, b, maxlen) for a, b in ranges])
            n = 2
        rest = sum(len(r[k]) for r in recs[1:-1])
        if rest <= start:
            fill = [rng.randint(lo, hi) for _ in range(min(50, start - rest))]
            recs[0][k] = (fill * (start // max(1, len(fill)) + 1))[:start - rest]
            recs[-1][k] = [rng.randint(lo, hi) for _ in range(rng.choice([0, 1, 2, 60, limit - start, limit - start + 1]))]
            ctx.count('at_limits')
    has_id = rng.random() < 0.5
    ids = make_ids(rng, n) if has_id else list(range(n))
    want = {i: [list(c) for c in r] for i, r in zip(ids, recs)}
    ctx.count('records', n)
    ctx.count('values', sum(len(c) for r in recs for c in r))
    for k, (lo, hi) in enumerate(ranges):
        vals = [v for r in recs for v in r[k]]
        if vals and min(vals) < 0 < max(vals):
            ctx.count('mixed_sign_fields')
        if (narrowest(vals) or 8) >= 4:
            ctx.count('wide_fields')
    path = ctx.tmp / 'db'
    route = rng.choice(['create', 'create', 'builder'])

    def source():
        if rng.random() < 0.15:
            ctx.count('reused_objects')
            return ((i, r) for i, r in zip(ids, reused(rng, recs))) if has_id else reused(rng, recs)
        rs = [[as_input(rng, c) for c in r] for r in recs]
        rs = [rng.choice([list, tuple])(r) for r in rs]
        return zip(ids, rs) if has_id else iter(rs)

    if route == 'create':
        db = Db.create(source(), field_names=names, has_id=has_id, path=path if rng.random() < 0.5 else None)
    else:
        fields = []
        for k, nm in enumerate(names):
            b = SeqField.Builder(name=nm, buf_size=rng.choice([1, 2, 3, 7, 20, 100]))
            since = 0
            again = rng.random() < 0.15
            for i, r in zip(ids, recs) if not again else zip(ids, reused(rng, [[r[k]] for r in recs])):
                b.append(i, r[0] if again else as_input(rng, r[k]))
                r = [r[0]] * (k + 1) if again else r
                since += len(r[k])
                if since >= b.buf_size:
                    ctx.count('flushes')
                    since = 0
            fields.append(b.build())
        db = Db(fields)

    def verify(db, what):
        ctx.equal(len(db), n, f'{what}: number of records')
        order = list(ids)
        rng.shuffle(order)
        for i in order[:40]:
            rec = db[i]
            ctx.equal(rec.id, i, f'{what}: id of record')
            for k, nm in enumerate(names):
                exact(ctx, getattr(rec, nm), want[i][k], f'{what}: sequence is not the one stored', id=i, field=nm, route=route)
        seen = []
        for rec in db:
            seen.append(rec.id)
            ctx.check(rec.id in want, f'{what}: unknown id', id=rec.id)
            for k, nm in enumerate(names):
                exact(ctx, getattr(rec, nm), want[rec.id][k], f'{what}: iteration gives another sequence', id=rec.id, field=nm, route=route)
        ctx.check(len(seen) == n and set(seen) == set(ids), f'{what}: iteration does not give every id once', seen=len(seen), n=n)

    verify(db, 'created')
    if rng.random() < 0.3:
        verify(db, 'second pass')
    p2 = ctx.tmp / rng.choice(['saved db', 'db [en-de]', 'db*', 'd\u00fc.db', 'db.gz', '%s {0}'])
    db.save(p2 if rng.random() < 0.5 else str(p2))
    verify(Db.load(p2), 'loaded')
    if route == 'create' and path.exists():
        verify(Db.load(path), 'created with path')
    ctx.count('reloads')
    sh = Db.load(p2, shuffle=True)
    random.seed(rng.random())
    verify(sh, 'shuffled')
    verify(sh, 'shuffled second pass')
    ctx.count('shuffled')
    # the field on its own
    k = rng.randrange(n_fields)
    fld = SeqField.create(names[k], ((i, as_input(rng, r[k])) for i, r in zip(ids, recs)))
    ctx.equal(len(fld), n, 'number of sequences in field')
    ctx.equal(list(fld.keys()), list(ids), 'keys of the field')
    for i, v in zip(ids, fld.values()):
        exact(ctx, v, want[i][k], 'values() gives another sequence', id=i)
    got = {i: v for i, v in fld.items()}
    ctx.check(set(got) == set(ids), 'items() ids')
    for i, v in got.items():
        exact(ctx, v, want[i][k], 'items() gives another sequence', id=i)
    ctx.equal({i: int(l) for i, l in fld.lengths()}, {i: len(r[k]) for i, r in want.items()}, 'lengths() are wrong')
    for i in ids[:10]:
        ctx.equal(int(fld.get_len(i)), len(want[i][k]), 'get_len is wrong', id=i)
        exact(ctx, fld[i], want[i][k], 'field[id] is another sequence', id=i)
    allv = [v for r in recs for v in r[k]]
    if allv:
        arr = fld[ids[0]]
        ctx.equal(np.asarray(arr).dtype.itemsize, narrowest(allv), 'values are not kept in the narrowest integer type', mn=min(allv), mx=max(allv))
    # narrowest type
    a, b = sorted([gen.int_value(rng, -2 ** 63, 2 ** 64 - 1), gen.int_value(rng, -2 ** 63, 2 ** 64 - 1)])
    w = narrowest([a, b])
    if w is None:
        ctx.raises(lambda: best_dtype(a, b), 'type for a range that fits none', mn=a, mx=b)
        ctx.raises(lambda: SeqField.create('x', [(0, [a, b])]), 'values that fit no type are stored', mn=a, mx=b)
        bld = SeqField.Builder('x', buf_size=1)
        ctx.raises(lambda: bld.append(0, [a]).append(1, [b]).build(), 'values that fit no type are stored', mn=a, mx=b)
    else:
        t = np.iinfo(best_dtype(a, b))
        ctx.check(t.min <= a and b <= t.max and t.bits // 8 == w, 'best_dtype is not the narrowest that fits', mn=a, mx=b, got=str(t.dtype))
    ctx.sig(route, [str(i) for i in ids], recs)
    if ctx.i < 4:
        ctx.sample(dict(route=route, fields=names, records=n, first=recs[0], ranges=ranges))


def big_case(ctx):
    """crosses the real buffer size (about 2.8 million values), and 2^16 in offsets and lengths"""
    from nlcodec.db import Db
    rng = ctx.rng
    nprng = np.random.RandomState(rng.randrange(2 ** 31))
    n = rng.choice([3, 40, 700])
    total = 3_300_000
    cuts = np.sort(nprng.randint(0, total, n - 1))
    lens = np.diff(np.concatenate(([0], cuts, [total])))
    lo1, hi1 = rng.choice([(0, 200), (0, 60000), (-100, 100), (0, 2 ** 31 - 1)])
    lo2, hi2 = rng.choice([(0, 2 ** 32 - 1), (-40000, 10), (0, 255), (2 ** 40, 2 ** 50)])
    arrs = []
    for i, l in enumerate(lens):
        lo, hi = (lo1, hi1) if i < n * 0.9 else (lo2, hi2)
        arrs.append(nprng.randint(lo, hi + 1, size=l, dtype=np.int64))
    small = [np.array([i, i + 1]) for i in range(n)]
    db = Db.create(((a, b) for a, b in zip(arrs, small)), field_names=['x', 'y'])
    db.save(ctx.tmp / 'db')
    for d in (db, Db.load(ctx.tmp / 'db')):
        for i in range(n):
            ctx.check(np.array_equal(d[i].x.astype(np.int64), arrs[i]) and d[i].x.dtype.kind in 'iu', 'large db: another sequence', id=i, n=n,
                      ranges=[(lo1, hi1), (lo2, hi2)])
            ctx.check(list(d[i].y) == list(small[i]), 'large db: another second field', id=i)
        ctx.equal(sorted(r.id for r in d), list(range(n)), 'large db: ids')
    ctx.count('big')
    ctx.count('values', total)
    ctx.sig('big', n, lo1, hi1, lo2, hi2)


def many_case(ctx):
    """more records than 16 bits count"""
    from nlcodec.db import Db
    rng = ctx.rng
    n = rng.choice([65535, 65536, 65537, 70000])
    base = rng.randint(0, 200)
    db = Db.create(([[(i + base) % 251], [i] * (i % 3)] for i in range(n)), field_names=['x', 'y'])
    db.save(ctx.tmp / 'db')
    for d in (Db.load(ctx.tmp / 'db'), Db.load(ctx.tmp / 'db', shuffle=True)):
        ctx.equal(len(d), n, 'db of many records: len')
        seen = bytearray(n)
        for r in d:
            i = r.id
            if seen[i] or len(r.x) != 1 or r.x[0] != (i + base) % 251 or len(r.y) != i % 3 or r.y.tolist() != [i] * (i % 3):
                ctx.check(False, 'db of many records: another record, or twice', id=i, n=n, again=seen[i], x=r.x.tolist(), y=r.y.tolist())
            seen[i] = 1
        ctx.check(all(seen), 'db of many records: iteration misses records', n=n, got=sum(seen), shuffle=d.shuffle)
    ctx.count('many')
    ctx.count('records', n)
    ctx.sig('many', n, base)
