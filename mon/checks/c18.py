"""C18 tensors of a batch"""
import numpy as np
from mon import gen

CASES = dict(quick=80000, thorough=700000)
RULE = ('case = up to 12 examples (lengths 1..30 with ties, tokens incl. pad/BOS/EOS inside and at the ends, as lists or arrays of any integer dtype '
        'up to 64 bits, read from a Db or made directly) x all BOS/EOS options x sort_dec x batch_first x with or without y; each row compared with '
        'the padded sequence; then built again from the same examples; val_exists_at on single examples; a BOS/EOS which was not asked for; distinct = distinct (contents, options)')
NEED = dict(batches=15000, rows=60000, bos_added=5000, eos_added=10000, already_there=5000, transposed=4000, sorted=4000, no_y=1000, wide_values=2000, rebuilt=15000, single=30000, huge=20)
ASSUMPTIONS = ['sequences are not empty', 'values fit a signed 64 bit integer', 'when BOS/EOS is not asked for, the sequences do not have it there (the code asserts it)']


def case(ctx):
    from nlcodec.db import Db
    from nlcodec.db.batch import Batch, BatchMeta, IdExample
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 5, rng.randint(1, 12)])
    pad, bos, eos = rng.choice([(0, 2, 3), (0, 2, 3), (0, 2, 3), (1, 5, 4), (9, 8, 7), (-1, 2, 3), (0, 1000, 70000), (0, 3, 3)])
    top = rng.choice([12, 12, 255, 300, 65535, 70000, 2 ** 31 - 1, 2 ** 31, 2 ** 32 + 5, 2 ** 62, 2 ** 63 - 1])
    has_y = rng.random() < 0.9
    opts = dict(add_bos_x=rng.random() < 0.5, add_bos_y=rng.random() < 0.5, add_eos_x=rng.random() < 0.7, add_eos_y=rng.random() < 0.7)
    meta = BatchMeta(pad_idx=pad, bos_idx=bos, eos_idx=eos, **opts) if rng.random() < 0.8 else BatchMeta(pad, bos, eos)
    maxlen = rng.choice([1, 3, 8, 30])
    if ctx.i % 200 == 17:
        n, maxlen = rng.choice([(40, 30), (300, 10), (4, 1200), (130, 130)])
        if ctx.i % 2000 == 17:
            n, maxlen = rng.choice([(2, 66000), (1, 140000), (3, 34000)])
            ctx.count('huge')
        ctx.count('tails')

    def seq(add_bos, add_eos):
        m = rng.randint(1, maxlen) if maxlen < 20000 else rng.choice([1, 65535, 65536, maxlen])
        s = [rng.choice([pad, bos, eos, 1, 10, 11, top, max(0, top - 1), rng.randint(0, top)]) for _ in range(m)]
        if add_bos and rng.random() < 0.35:
            s[0] = bos
        if add_eos and rng.random() < 0.35:
            s[-1] = eos
        # else-branches of the code assert that it is not there
        free = [v for v in (10, 11, 12, 13) if v not in (bos, eos, pad)]
        if not add_bos and s[0] == bos:
            s[0] = rng.choice(free)
        if not add_eos and s[-1] == eos:
            s[-1] = rng.choice(free)
        if not add_bos and s[0] == bos:
            s[0] = rng.choice(free)
        return s
    xs = [seq(meta.add_bos_x, meta.add_eos_x) for _ in range(n)]
    ys = [seq(meta.add_bos_y, meta.add_eos_y) for _ in range(n)] if has_y else [None] * n
    if rng.random() < 0.3 and n > 1:  # ties
        xs[-1] = list(xs[0])

    def arr(s):
        if s is None:
            return None
        fits = [t for t in (np.uint8, np.int8, np.uint16, np.int16, np.int32, np.uint32, np.int64)
                if np.iinfo(t).min <= min(s) and max(s) <= np.iinfo(t).max]
        t = rng.choice(fits)
        a = np.array(s, dtype=t)
        ctx.count('wide_values', max(s) > 65535)
        if rng.random() < 0.1:
            a.flags.writeable = False
        return a
    if has_y and rng.random() < 0.3:
        db = Db.create(zip(xs, ys), field_names=['x', 'y'], has_id=False)
        p = ctx.tmp / 'db'
        db.save(p)
        db = Db.load(p, rec_type=IdExample)
        exs = [db[i] for i in range(n)]
    elif rng.random() < 0.15:
        exs = [IdExample(i, list(x), None if y is None else list(y)) for i, (x, y) in enumerate(zip(xs, ys))]
    else:
        exs = [IdExample(i, arr(x), arr(y)) for i, (x, y) in enumerate(zip(xs, ys))]
    raw = rng.random() < 0.2
    if raw:
        for i, e in enumerate(exs):
            e.x_raw, e.y_raw = f'x{i}', f'y{i}'
    sort_dec, batch_first = rng.random() < 0.5, rng.random() < 0.6

    def full(s, b, e):
        s = list(s)
        if b and s[0] != bos:
            s = [bos] + s
            ctx.count('bos_added')
        elif b:
            ctx.count('already_there')
        if e and s[-1] != eos:
            s = s + [eos]
            ctx.count('eos_added')
        elif e:
            ctx.count('already_there')
        return s
    wx = [full(x, meta.add_bos_x, meta.add_eos_x) for x in xs]
    wy = [full(y, meta.add_bos_y, meta.add_eos_y) for y in ys] if has_y else None

    def padded(rows):
        m = max(map(len, rows))
        return [r + [pad] * (m - len(r)) for r in rows]

    def judge(b, what, batch_first):
        ctx.check(len(b) == n, f'{what}: number of rows', got=len(b), want=n)
        X = b.x_seqs if batch_first else b.x_seqs.T
        X = [[int(v) for v in r] for r in X]
        if sort_dec:
            lens = [int(v) for v in b.x_len]
            ctx.check(all(p >= q for p, q in zip(lens, lens[1:])), f'{what}: rows are not in non-increasing source length', lens=lens)
            # rows in the order of the batch: match them to examples as pairs
            Y = (b.y_seqs if batch_first else b.y_seqs.T) if has_y else None
            got = sorted((int(b.x_len[k]), X[k], int(b.y_len[k]) if has_y else 0, [int(v) for v in Y[k]] if has_y else [],
                          b.x_raw[k] if raw else '', b.y_raw[k] if raw and has_y else '') for k in range(n))
            py = padded(wy) if has_y else [[]] * n
            want = sorted((len(wx[k]), padded(wx)[k], len(wy[k]) if has_y else 0, py[k], f'x{k}' if raw else '', f'y{k}' if raw and has_y else '')
                          for k in range(n))
            ctx.equal(got, want, f'{what}: rows of x and y are not the examples', opts=opts, pad=pad, bos=bos, eos=eos)
            ctx.count('sorted')
        else:
            ctx.equal(X, padded(wx), f'{what}: rows of x', pad=pad, bos=bos, eos=eos, opts=opts, xs=xs)
            ctx.equal([int(v) for v in b.x_len], [len(r) for r in wx], f'{what}: x_len')
            if has_y:
                Y = b.y_seqs if batch_first else b.y_seqs.T
                ctx.equal([[int(v) for v in r] for r in Y], padded(wy), f'{what}: rows of y', pad=pad, bos=bos, eos=eos, opts=opts, ys=ys)
                ctx.equal([int(v) for v in b.y_len], [len(r) for r in wy], f'{what}: y_len')
            if raw:
                ctx.equal(b.x_raw, [f'x{i}' for i in range(n)], f'{what}: x_raw')
        ctx.check(bool(b.has_y) == has_y, f'{what}: has_y', got=b.has_y)
        ctx.check(int(b.x_toks) == sum(map(len, wx)), f'{what}: x_toks', got=int(b.x_toks))
        ctx.check(int(b.max_x_len) == max(map(len, wx)), f'{what}: max_x_len', got=int(b.max_x_len))
        if has_y:
            ctx.check(int(b.y_toks) == sum(map(len, wy)), f'{what}: y_toks', got=int(b.y_toks))
            ctx.check(int(b.max_y_len) == max(map(len, wy)), f'{what}: max_y_len', got=int(b.max_y_len))
        ctx.count('rows', n)
        ctx.count('no_y', not has_y)
        ctx.count('transposed', not batch_first)
        ctx.count('batches')

    b = Batch(exs, sort_dec=sort_dec, batch_first=batch_first, meta=meta)
    judge(b, 'batch', batch_first)
    bf2 = rng.random() < 0.5
    b2 = Batch(exs, sort_dec=sort_dec, batch_first=bf2, meta=meta)
    judge(b2, 'batch built again', bf2)
    judge(b, 'first batch after building another', batch_first)
    ctx.count('rebuilt')
    # the same rule for a single example
    for side, vals in (('x', xs), ('y', ys)):
        for pos, val in ((0, bos), (-1, eos)):
            s = rng.choice(vals)
            if s is None:
                continue
            other = [5, 6]
            for exist in (True, False):
                e = IdExample(0, arr(s) if side == 'x' else other, arr(s) if side == 'y' else other)
                e.val_exists_at(side, pos=pos, exist=exist, val=val)
                want = list(s)
                if exist and s[pos] != val:
                    want = [val] + want if pos == 0 else want + [val]
                got = [int(v) for v in (e.x if side == 'x' else e.y)]
                ctx.equal(got, want, 'val_exists_at', side=side, pos=pos, exist=exist, val=val, seq=s)
                ctx.equal(list(e.y if side == 'x' else e.x), other, 'val_exists_at changes the other side', side=side)
                ctx.check(e[f'{side}_len'] == len(want), f'{side}_len of an example', got=e[f'{side}_len'], want=len(want))
                ctx.count('single')
    # not asked for and there: refused, never dropped
    if rng.random() < 0.3:
        opt, pos, val = rng.choice([('add_bos_x', 0, bos), ('add_eos_x', -1, eos), ('add_bos_y', 0, bos), ('add_eos_y', -1, eos)])
        bad = [dict(x=[10, 11], y=[12, 13]) for _ in range(3)]
        if bos not in (10, 11, 12, 13) and eos not in (10, 11, 12, 13):
            bad[rng.randrange(3)][opt[-1]][pos] = val
            o = dict(add_bos_x=False, add_bos_y=False, add_eos_x=False, add_eos_y=False)
            rows = [IdExample(i, np.array(r['x']), np.array(r['y'])) for i, r in enumerate(bad)]
            try:
                w = Batch(rows, meta=BatchMeta(pad_idx=pad, bos_idx=bos, eos_idx=eos, **o))
            except Exception:
                ctx.count('refused')
            else:
                ctx.equal([[int(v) for v in r] for r in w.x_seqs], [r['x'] for r in bad], 'a token which was not to be added is dropped (x)')
                ctx.equal([[int(v) for v in r] for r in w.y_seqs], [r['y'] for r in bad], 'a token which was not to be added is dropped (y)')
    ctx.sig(xs, ys, sorted(opts.items()), sort_dec, batch_first, pad, bos, eos)
    if ctx.i < 3:
        ctx.sample(dict(xs=xs[:3], ys=ys[:3], opts=opts, sort_dec=sort_dec, batch_first=batch_first))
