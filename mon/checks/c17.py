"""C17 batching visits every record once within the limits"""
import random
from pathlib import Path
import numpy as np
from mon import gen

CASES = dict(quick=20000, thorough=200000)
RULE = ('case = records with empty sides, ties of length, lengths on both sides of the limits x Db file or MultipartDb dir (part size 1..n+1, parts '
        'whose records are all empty) x batch size (tokens, or tokens and sentences, incl. values that make exact fits) x sort_by x sort_desc x '
        'batch_first x keep_in_mem x BOS/EOS options x 3 passes, nested passes x ids (automatic, negative, beyond 64 bits, strings, tuples, mixed); each row is traced back to its record by a unique token; '
        'distinct = distinct (lengths, limits, route)')
NEED = dict(passes=8000, batches=30000, rows=60000, skipped=4000, exact_fit=2000, full_sents=2000, overlong=300, eq_len_parts=5000, nested=200, odd_ids=2000)
ASSUMPTIONS = ['tokens of the data are not pad, BOS or EOS']

PAD, BOS, EOS = 0, 2, 3


def lengths(rng, n):
    kind = rng.choice(['same', 'small', 'wide', 'ties', 'skew'])
    res = []
    for _ in range(n):
        if kind == 'same':
            a = b = 5
        elif kind == 'small':
            a, b = rng.randint(1, 3), rng.randint(1, 3)
        elif kind == 'wide':
            a, b = rng.randint(1, 40), rng.randint(1, 40)
        elif kind == 'ties':
            a, b = rng.choice([2, 7, 20]), rng.choice([1, 7])
        else:
            a, b = (rng.randint(1, 4), rng.randint(1, 4)) if rng.random() < 0.9 else (rng.randint(1, 60), rng.randint(1, 60))
        if rng.random() < 0.12:
            a, b = rng.choice([(0, b), (a, 0), (0, 0)])
        res.append((a, b))
    return res


def case(ctx):
    from nlcodec.db import Db, MultipartDb
    from nlcodec.db.batch import BatchIterable, BatchMeta, IdExample
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 5, 12, 30, rng.randint(1, 80)])
    if ctx.i % 200 == 17:
        n = rng.choice([300, 1100, 2100])
        ctx.count('tails')
    lens = lengths(rng, n)
    if ctx.i % 200 == 18:  # some long sequences
        lens = [(rng.choice([a, 130, 257, 300, 1030, 4100]), rng.choice([b, b, 130, 260, 2050])) if a and b and rng.random() < 0.2 else (a, b) for a, b in lens]
        ctx.count('tails')
    base = rng.choice([10, 100, 40000, 70000, 3 * 10 ** 9])
    if rng.random() < 0.6:
        ids = list(range(n))
        auto = True
    else:
        ids = rng.choice([rng.sample(range(10 * n), n), [i * 10 ** 12 for i in range(n)], [-i for i in range(n)],
                          [2 ** 63 + i for i in range(n)], [2 ** 63 + i if i % 3 else -i - 1 for i in range(n)], [2 ** 70 + i for i in range(n)],
                          [f'id {i}' for i in range(n)], [(i // 2, 'xy'[i % 2]) for i in range(n)], [i + 0.5 for i in range(n)],
                          [i if i % 2 else str(i) for i in range(n)]])
        ctx.count('odd_ids', not isinstance(ids[0], int) or abs(ids[-1]) > 2 ** 62)
        auto = False
    recs = {}
    for i, (a, b) in zip(ids, lens):
        u = base + len(recs) * 3
        x = [u] * a
        y = [u + 1] * b
        for s in (x, y):
            for k in range(1, len(s)):
                s[k] = rng.choice([s[0], base + rng.randint(0, 3 * n), 11])
        recs[i] = (x, y)
    route = rng.choice(['db', 'multi', 'multi', 'multi_allempty'])
    if route == 'multi_allempty' and auto:
        pass
    path = ctx.tmp / rng.choice(['data', 'data', 'data [en-de]', 'd*', 'd\u00fc x'])
    order = list(recs)
    part_of = {}
    if route == 'db':
        db = Db.create(((i, recs[i]) for i in order) if not auto else (recs[i] for i in order), field_names=['x', 'y'], has_id=not auto)
        db.save(path)
        part_of = {i: 0 for i in order}
    else:
        ps = rng.choice([1, 2, 3, max(1, n // 2), n, n + 1])
        if route == 'multi_allempty':  # a part with nothing to give
            k = max(1, min(n, ps))
            for j, i in enumerate(order[:k]):
                recs[i] = rng.choice([([], recs[i][1]), (recs[i][0], []), ([], [])])
            if rng.random() < 0.5 and n > k:
                order = order[k:] + order[:k] if not auto else order
        MultipartDb.create(path, ((i, recs[i]) for i in order) if not auto else (recs[i] for i in order), field_names=['x', 'y'], has_id=not auto,
                           part_size=ps)
        part_of = {i: j // ps for j, i in enumerate(order)}
    good = {i: r for i, r in recs.items() if r[0] and r[1]}
    ctx.count('skipped', len(recs) - len(good))
    size = {i: max(len(r[0]), len(r[1])) for i, r in good.items()}
    longest = max(size.values(), default=1)
    max_toks = rng.choice([longest, longest, longest + 1, 2 * longest, 2 * longest - 1, 3 * longest, 5 * longest + 2, 10 * longest, max(1000, longest), 10 ** 6])
    overlong = False
    if good and longest > 1 and rng.random() < 0.12:
        max_toks = rng.randint(1, longest - 1)
        overlong = True
    max_sents = rng.choice([None, None, 1, 2, 3, 7, n, n + 1, max(1, n - 1)])
    eq = rng.random() < 0.5
    by = {(tuple(x), tuple(y)): i for i, (x, y) in good.items()}
    assert len(by) == len(good)
    first = {x[0]: i for i, (x, y) in good.items()}

    def judge(batches, what):
        """batches: lists of (x, y)"""
        seen = []
        ranges = {}
        for rows in batches:
            ctx.count('batches')
            ctx.check(len(rows) > 0, f'{what}: empty batch')
            if max_sents is not None:
                ctx.check(len(rows) <= max_sents, f'{what}: batch has more than max_sents records', got=len(rows), max_sents=max_sents, lens=lens)
                ctx.count('full_sents', len(rows) == max_sents)
            got = []
            for x, y in rows:
                i = by.get((tuple(x), tuple(y)))
                ctx.check(i is not None, f'{what}: batch has a row that is not a record', x=x, y=y, near=good.get(first.get(x[0]) if x else None))
                got.append(i)
            seen += got
            m = max(size[i] for i in got)
            ctx.check(len(got) * m <= max_toks, f'{what}: batch exceeds max_toks', n=len(got), longest=m, max_toks=max_toks)
            ctx.count('exact_fit', len(got) * m == max_toks)
            ctx.count('rows', len(got))
            if eq:
                ps = {part_of[i] for i in got}
                ctx.check(len(ps) == 1, f'{what}: batch mixes parts', parts=sorted(ps))
                ranges.setdefault(ps.pop(), []).append((min(size[i] for i in got), m))
        ctx.equal(sorted(seen, key=repr), sorted(good, key=repr), f'{what}: records not visited exactly once', lens=lens, max_toks=max_toks, max_sents=max_sents)
        for rs in ranges.values():
            ctx.count('eq_len_parts')
            rs.sort()
            for (a, b), (c, d) in zip(rs, rs[1:]):
                ctx.check(b <= c, f'{what}: batches of a part are not cuts of its records sorted by length', ranges=rs[:20])
        ctx.count('passes')

    bs = max_toks if max_sents is None else rng.choice([(max_toks, max_sents), [max_toks, max_sents]])
    by_sort = 'eq_len_rand_batch' if eq else None
    lists = None
    if rng.random() < 0.25 and eq:  # the databases themselves
        kw = dict(max_toks=max_toks)
        if max_sents is not None:
            kw['max_sents'] = max_sents
        data = Db.load(path, rec_type=IdExample) if route == 'db' else MultipartDb.load(path, rec_type=IdExample, keep_in_mem=rng.random() < 0.5)

        def one():
            return [[([int(t) for t in r.x], [int(t) for t in r.y]) for r in b] for b in data.make_eq_len_ran_batches(**kw)]
        what = 'make_eq_len_ran_batches'
    else:
        meta = BatchMeta(pad_idx=PAD, bos_idx=BOS, eos_idx=EOS, add_bos_x=rng.random() < 0.3, add_bos_y=rng.random() < 0.3,
                         add_eos_x=rng.random() < 0.7, add_eos_y=rng.random() < 0.7)
        bf = rng.random() < 0.8
        sd = rng.random() < 0.3
        it = BatchIterable(path if rng.random() < 0.7 else str(path), batch_size=bs, batch_meta=meta, sort_desc=sd, batch_first=bf,
                           sort_by=by_sort, keep_in_mem=rng.random() < 0.5)
        ctx.check(it.num_items == n, 'num_items is not the number of records', got=it.num_items, want=n)

        def strip(seq, bos, eos):
            if bos:
                ctx.check(seq[:1] == [BOS], 'row without the BOS asked for', row=seq)
                seq = seq[1:]
            if eos:
                ctx.check(seq[-1:] == [EOS], 'row without the EOS asked for', row=seq)
                seq = seq[:-1]
            return seq

        def rows_of(b):
            xs = b.x_seqs if bf else b.x_seqs.T
            ys = b.y_seqs if bf else b.y_seqs.T
            return [(strip([int(t) for t in xs[k][:b.x_len[k]]], meta.add_bos_x, meta.add_eos_x),
                     strip([int(t) for t in ys[k][:b.y_len[k]]], meta.add_bos_y, meta.add_eos_y)) for k in range(len(b))]

        def one():
            return [rows_of(b) for b in it]
        what = f'BatchIterable(sort_by={by_sort})'
        if not overlong and good and rng.random() < 0.1:
            # two passes at the same time
            i1, i2 = iter(it), iter(it)
            l1, l2 = [], []
            end = [False, False]
            while not all(end):
                k = rng.randint(0, 1)
                b = next((i1, i2)[k], None)
                if b is None:
                    end[k] = True
                else:
                    (l1, l2)[k].append(rows_of(b))
            judge(l1, what + ' nested')
            judge(l2, what + ' nested')
            ctx.count('nested')
    for _ in range(3):
        if overlong:
            ctx.raises(one, f'{what}: record longer than max_toks is not an error', lens=lens, max_toks=max_toks, max_sents=max_sents)
            ctx.count('overlong')
        elif not good:
            try:
                res = one()
            except Exception as e:
                ctx.count('no_data_error')
                if 'Found no data' not in str(e):
                    raise
            else:
                ctx.equal(res, [], f'{what}: batches from no records')
        else:
            judge(one(), what)
    ctx.sig(lens, max_toks, max_sents, eq, route, sorted(part_of.values()))
    if ctx.i < 4:
        ctx.sample(dict(lens=lens, max_toks=max_toks, max_sents=max_sents, sort_by=by_sort, route=route))
