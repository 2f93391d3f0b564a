"""C13 map-reduce equals the ordered fold"""
import functools
import itertools
import multiprocessing as mp
import os
import random
import time
from collections import Counter
from mon import gen

CASES = dict(quick=3600, thorough=30000)
RULE = ('case = reducer (string/tuple concatenation, affine composition, 2x2 matrix product mod p, max-by-position, counters) x items x pools (map, '
        'fork Pool imap with chunk sizes, lazy map with delays, spawn via multiprocess) with repeated use of an object; distinct = distinct '
        '(reducer, number of items, pools, result)')
NEED = dict(folds=2000, pool_folds=100, multiprocess_runs=8, word_counts=300, odd_levels=1000, reuses=300, huge=3)


def cat(a, b):
    return a + b


def slow_cat(a, b):
    h = hash((a, b)) % 50
    if h < 8:
        time.sleep(h / 2000)
    return a + b


def affine(f, g):  # composition of x -> a x + c modulo a prime: associative, not commutative
    (a, c), (b, d) = f, g
    return (a * b) % 1000003, (c * b + d) % 1000003


def mat(x, y):
    p = 10007
    (a, b, c, d), (e, f, g, h) = x, y
    return (a * e + b * g) % p, (a * f + b * h) % p, (c * e + d * g) % p, (c * f + d * h) % p


def left(a, b):
    """keeps the first item that is not None"""
    return b if a is None else a


def seg(a, b):
    """joins adjacent ranges, records gaps"""
    if a is None:
        return b
    if b is None:
        return a
    return (a[0], b[1], a[2] + b[2] + (a[1] != b[0]))


def mul(a, b):
    return a * b % 7919


def to_factor(x):
    return x % 7919 if x % 11 else 0


def to_small(x):
    return x % 100 - 3


def join(a, b):
    """of nested lists"""
    return [*a, *b]


def to_list(x):
    return [x] if x % 3 else []


def add(a, b):
    return a + b


def to_signed(x):
    return x - 500000


def to_pair(x):
    return (x, (x * 7 + 3) % 1000003)


def to_mat(x):
    return (x % 97, x % 89 + 1, x % 83, x % 79 + 2)


def to_str(x):
    return f'<{x}>'


def to_tup(x):
    return (x,)


def to_seg(x):
    return (x, x + 1, 0)


def slow_tup(x):
    if x % 13 == 0:
        time.sleep(0.001)
    return (x,)


REDUCERS = {
    'str': (to_str, cat, ''),
    'tuple': (to_tup, cat, ()),
    'slow': (slow_tup, slow_cat, ()),
    'affine': (to_pair, affine, (1, 0)),
    'matrix': (to_mat, mat, (1, 0, 0, 1)),
    'segment': (to_seg, seg, None),
    'first': (to_tup, left, None),
    'product': (to_factor, mul, 1),
    'minimum': (to_small, min, 10 ** 9),
    'maximum': (to_small, max, -10 ** 9),
    'sum': (to_signed, add, 0),
    'lists': (to_list, join, []),
}


def shuffling_map(seed):
    """eager in blocks: evaluates calls of a block in a random order, gives results in order"""
    def pool(fn, it):
        rng = random.Random(seed)

        def gen_():
            src = iter(it)
            while True:
                block, stop = [], None
                n = rng.randint(1, 6)
                try:
                    for _ in range(n):
                        block.append(next(src))
                except StopIteration:
                    stop = 'end'
                except Exception as e:
                    stop = e
                order = list(range(len(block)))
                rng.shuffle(order)
                res = {}
                for j in order:
                    res[j] = fn(block[j])
                for j in range(len(block)):
                    yield res[j]
                if stop == 'end':
                    return
                if stop is not None:
                    raise stop
        return gen_()
    return pool


_pools = {}


def get_pool(n):
    if n not in _pools:
        _pools[n] = mp.get_context('fork').Pool(n)
    return _pools[n]


def teardown_worker():
    for p in _pools.values():
        p.terminate()


def case(ctx):
    from nlcodec.para.mapred import ireduce, MapReduce, IterativeReducer
    rng = ctx.rng
    if ctx.i % 200 == 11:
        return spawn_case(ctx)
    if ctx.i % 4 == 1:
        return words_case(ctx)
    name = rng.choice(list(REDUCERS))
    mapper, reducer, default = REDUCERS[name]
    n_uses = rng.choice([1, 1, 2, 3])
    mr = MapReduce(mapper=mapper, reducer=reducer, default=default)
    ir = IterativeReducer(func=reducer, default=default)
    for use in range(n_uses):
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 33, rng.randint(1, 200), rng.randint(1, 1200 if ctx.thorough else 400)])
        if ctx.i % 301 == 8 and name not in ('tuple', 'slow'):
            n = rng.choice([4097, 5000, 70001 if name != 'str' else 9999])
            ctx.count('huge')
        xs = list(range(n)) if name == 'segment' else [rng.randrange(10 ** 6) for _ in range(n)]
        want = functools.reduce(reducer, [mapper(x) for x in xs])
        how = rng.choice(['map', 'map', 'shuffle', 'pool', 'pool'] if ctx.i % 3 == 0 else ['map', 'shuffle'])
        if how == 'pool':
            c1, c2 = rng.choice([1, 2, 3, 10, 100, 1000]), rng.choice([1, 2, 7, 50, 1000])
            mpool = functools.partial(get_pool(2).imap, chunksize=c1)
            rpool = functools.partial(get_pool(3).imap, chunksize=c2)
            ctx.count('pool_folds')
        elif how == 'shuffle':
            mpool = rpool = shuffling_map(rng.random())
            c1 = c2 = 0
        else:
            mpool = rpool = map
            c1 = c2 = -1
        src = rng.choice([list, iter, tuple, lambda v: (x for x in v)])
        got = mr(src(xs), map_pool=mpool, reduce_pool=rpool)
        ctx.equal(got, want, f'map-reduce ({name}) is not the ordered fold', n=n, how=how, chunks=(c1, c2), use=use)
        mapped = [mapper(x) for x in xs]
        copy = list(mapped)
        got = ireduce(reducer, default, src(mapped), pool=rpool) if rng.random() < 0.7 else ireduce(reducer, default, src(mapped))
        ctx.equal(got, want, f'ireduce ({name}) is not the ordered fold', n=n, how=how, chunks=(c1, c2))
        ctx.equal(ir(src(mapped), pool=rpool), want, f'reducer object ({name}) used again is not the ordered fold', n=n, use=use)
        ctx.equal(mapped, copy, 'reduction changed its input')
        ctx.count('folds', 3)
        ctx.count('reuses', use)
        m = n
        while m > 1:
            ctx.count('odd_levels', m % 2)
            m = (m + 1) // 2
        ctx.sig(name, n, how, c1, c2, str(got)[:200])
    ctx.raises(lambda: ireduce(reducer, default, iter([])), 'reduction of nothing gives a result')
    one = object()
    ctx.check(ireduce(reducer, default, iter([one])) is one, 'reduction of a single item is not the item')
    if ctx.i < 4:
        ctx.sample(dict(reducer=name, n=n, how=how, chunks=(c1, c2), result=str(got)[:80]))


def words_case(ctx):
    from nlcodec.para.mapred import WordCounter, merge_freqs, word_count_line
    rng = ctx.rng
    wc = WordCounter()
    for use in range(rng.choice([1, 2, 3])):
        lines = gen.corpus(rng, n_lines=rng.choice([1, 2, 3, 10, 60])) if ctx.i % 303 != 5 else gen.huge_lines(rng, n_types=5000)
        want = Counter(w for l in lines for w in l.split())
        how = rng.choice(['map', 'shuffle', 'pool'])
        if how == 'pool':
            mpool, rpool = functools.partial(get_pool(2).imap, chunksize=rng.choice([1, 5, 1000])), functools.partial(get_pool(3).imap, chunksize=rng.choice([1, 4, 1000]))
        else:
            mpool = rpool = map if how == 'map' else shuffling_map(rng.random())
        copy = list(lines)
        got = wc(iter(lines), map_pool=mpool, reduce_pool=rpool)
        ctx.equal(dict(got), dict(want), 'word counts are not exact', how=how, use=use, lines=lines[:10])
        ctx.equal(lines, copy, 'counting changed the input')
        ctx.equal(dict(WordCounter()(iter(lines), map_pool=map, reduce_pool=map)), dict(want), 'word counts of a new counter are not exact')
        ctx.count('word_counts', 2)
        ctx.count('reuses', use)
        ctx.sig('words', sorted(want.items()), how)
    a = Counter(rng.choice('abcdef') for _ in range(rng.randint(0, 12)))
    b = Counter(rng.choice('defghi') for _ in range(rng.randint(0, 12)))
    want = a + b
    ctx.equal(dict(merge_freqs(dict(a), dict(b))), dict(want), 'merge of counts is not their sum', a=dict(a), b=dict(b))


def spawn_case(ctx):
    from nlcodec.para.mapred import MapReduce, WordCounter
    rng = ctx.rng
    name = rng.choice(['tuple', 'affine', 'slow', 'segment'])
    mapper, reducer, default = REDUCERS[name]
    n = rng.choice([1, 2, 7, 64, 65, 333])
    xs = list(range(n)) if name == 'segment' else [rng.randrange(10 ** 6) for _ in range(n)]
    want = functools.reduce(reducer, [mapper(x) for x in xs])
    kw = dict(map_procs=rng.choice([1, 2, 3]), red_procs=rng.choice([1, 2]), chunksize=rng.choice([1, 3, 10, 1000]))
    mr = MapReduce(mapper, reducer, default)
    ctx.equal(mr.multiprocess(iter(xs), **kw), want, f'multiprocess map-reduce ({name}) is not the ordered fold', n=n, **kw)
    lines = gen.corpus(rng, n_lines=40)
    got = WordCounter().multiprocess(iter(lines), **kw)
    ctx.equal(dict(got), dict(Counter(w for l in lines for w in l.split())), 'multiprocess word counts are not exact', **kw)
    ctx.count('multiprocess_runs', 2)
    ctx.count('folds')
    ctx.sig('spawn', name, n, kw)
