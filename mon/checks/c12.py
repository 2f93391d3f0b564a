"""C12 parallel encoding"""
import hashlib
import itertools
import multiprocessing as mp
import os
import time
from mon import gen, build

CASES = dict(quick=1800, thorough=12000)
RULE = ('case = scheme x input (length around multiples of the chunk size, list/generator/file) x processes x chunk size x injected delays '
        'that make later items finish before earlier ones; mapper and input failures; early stop; many stops and errors while the workers are busy; distinct = distinct (lengths, chunks, '
        'processes, delay pattern, order in which the items were finished)')
NEED = dict(runs=200, items=20000, out_of_order_completions=200, mapper_errors=10, input_errors=10, early_stops=10, hammered=600, long_inputs=8, deep_vocabularies=10)
ASSUMPTIONS = ['at least two processes (the code asks for it)']


class Boom(Exception):
    pass


def error(kind, what):
    return {'unicode': UnicodeEncodeError('utf-8', '\ud800', 0, 1, what), 'key': KeyError(what), 'value': ValueError(what), 'io': OSError(5, what),
            'type': TypeError(what), 'assert': AssertionError(what), 'index': IndexError(what), 'eof': EOFError(what)}.get(kind) or Boom(what)


KINDS = ['boom', 'unicode', 'key', 'value', 'io', 'type', 'assert', 'index', 'eof']


class Delayed:
    """mapper with delays that depend on the item; tells who did it and when it was finished"""

    def __init__(self, fn, salt, slow, fail=None, kind='boom'):
        self.fn, self.salt, self.slow, self.fail, self.kind = fn, salt, slow, fail, kind

    def __call__(self, item):
        i, line = item
        h = int(hashlib.md5(f'{self.salt}/{i}'.encode()).hexdigest(), 16) % 1000
        if h < self.slow:
            time.sleep(h % 10 / 1000)
        if i == self.fail:
            raise error(self.kind, f'item {i}')
        return i, self.fn(line), os.getpid(), time.monotonic()


def watched(scheme, delay_salt, slow):
    """scheme of the same kind whose encode is delayed"""
    orig = scheme.encode

    def encode(line):
        h = int(hashlib.md5(f'{delay_salt}/{line}'.encode('utf8', 'replace')).hexdigest(), 16) % 1000
        if h < slow:
            time.sleep(h % 10 / 1000)
        return orig(line)
    return encode


class SlowMixin:
    salt, slow = 0, 30

    def encode(self, line):
        h = int(hashlib.md5(f'{self.salt}/{line}'.encode('utf8', 'replace')).hexdigest(), 16) % 1000
        if h < self.slow:
            time.sleep(h % 10 / 1000)
        return super().encode(line)


_slow = {}


def slow_class(cls):
    if cls not in _slow:
        name = 'Slow' + cls.__name__
        _slow[cls] = type(name, (SlowMixin, cls), {'__module__': __name__})
        globals()[name] = _slow[cls]
    return _slow[cls]


def feed(kind, items, tmp):
    if kind == 'list':
        return list(items)
    if kind == 'tuple':
        return tuple(items)
    if kind == 'iter':
        return iter(list(items))
    if kind == 'slow_gen':
        def g():
            for i, x in enumerate(items):
                if i % 97 == 5:
                    time.sleep(0.002)
                yield x
        return g()
    return (x for x in items)


def failing(items, at, kind='boom'):
    for i, x in enumerate(items):
        if i == at:
            raise error(kind, f'input {i}')
        yield x


def ident(x):
    return x


def fails_at(x):
    if x % 211 == 17:
        raise Boom(f'item {x}')
    return x


def hammer(ctx):
    """many early stops and errors while the workers are busy with sending results"""
    from nlcodec.codec import EncoderScheme
    rng = ctx.rng
    for _ in range(60):
        n_cpus, n, k = rng.choice([2, 2, 3, 4]), rng.choice([300, 3000]), rng.randint(1, 60)
        chunk = rng.choice([1, 1, 1, 2, 10])
        if rng.random() < 0.7:
            pad = 'x' * rng.choice([1, 200])
            it = EncoderScheme.parallel_map(ident, (pad for _ in range(n)), n_cpus=n_cpus, chunksize=chunk)
            ctx.equal(list(itertools.islice(it, k)), [pad] * k, 'first results are wrong')
            it.close()
        else:
            s = rng.randint(0, 200)
            e = ctx.raises(lambda: list(EncoderScheme.parallel_map(fails_at, range(s, s + n), n_cpus=n_cpus, chunksize=chunk)), 'error is swallowed')
            ctx.check(isinstance(e, Boom), 'another error than the one raised', got=repr(e))
        ctx.count('hammered')
    left = [p for p in mp.active_children()]
    ctx.check(not left, 'processes remain after the consumer has stopped', left=len(left))


def odd_value(x):
    """results that are falsy or look like marks of an end"""
    return ODD[x % len(ODD)]


ODD = [None, 0, '', [], False, {}, (), ..., 1, StopIteration, b'', 0.0, None, 'x', -1, StopIteration(), [None]]


def long_input(ctx):
    """more lines than any block"""
    from nlcodec.codec import EncoderScheme
    rng = ctx.rng
    s, lines = build.some_scheme(rng, rng.choice(['word', 'byte', 'class', 'char']))
    lines = [l[:20] for l in lines]
    n = rng.choice([16385, 33000, 65537, 70001, 131075])
    data = [rng.choice(lines) for _ in range(n)]
    memo = {l: list(s.encode(l)) for l in lines}
    got = [list(x) for x in s.encode_parallel(iter(data), n_cpus=rng.choice([2, 4]))]
    ctx.check(len(got) == n, 'parallel encoding of a long input has another length', n=n, got=len(got))
    for i, (l, x) in enumerate(zip(data, got)):
        ctx.check(x == memo[l], 'parallel encoding of a long input is not the sequential one', at=i, n=n)
    n = rng.choice([0, 1, 50, 2001, 12000])
    chunk = rng.choice([1, 7, 100, 1000])
    got = list(EncoderScheme.parallel_map(odd_value, (i for i in range(n)), n_cpus=rng.choice([2, 3]), chunksize=min(chunk, 7) if n < 100 else chunk if n < 5000 else 1000))
    ctx.equal([repr(x) for x in got], [repr(odd_value(i)) for i in range(n)], 'parallel_map does not give the odd values')
    items = [rng.choice(ODD) for _ in range(n)]
    got = list(EncoderScheme.parallel_map(ident, iter(items), n_cpus=2, chunksize=1000))
    ctx.equal([repr(x) for x in got], [repr(x) for x in items], 'parallel_map does not give the odd items')
    ctx.count('long_inputs')
    ctx.sig(n, len(data), s.level if hasattr(s, 'level') else 0)


def case(ctx):
    from nlcodec import BPEScheme
    if ctx.i % 149 == 9:
        return long_input(ctx)
    if ctx.i % 59 == 7:
        return hammer(ctx)
    rng = ctx.rng
    level = rng.choice(['word', 'char', 'bpe', 'byte', 'class', 'bpe'])
    s, lines = build.some_scheme(rng, level)
    if level == 'bpe' and rng.random() < 0.2:  # entries longer than the stack of the interpreter is deep
        s = BPEScheme(gen.bpe_table(rng, n_merges=25, long=True))
        lines = lines[:5] + [rng.choice(s.table[5:]).name for _ in range(3)] + [max((t.name for t in s.table), key=len) + 'a']
        if max(len(t.name) for t in s.table) > 1600:
            ctx.count('deep_vocabularies')
    n_cpus = rng.choice([2, 2, 3, 4, 7])
    mode = ['encode', 'map', 'encode', 'map', 'mapper_error', 'input_error', 'early_stop', 'default'][ctx.i % 8]
    chunk = 1000 if mode in ('encode', 'default') else rng.choice([1, 1, 2, 3, 7, 10, 100, 1000])
    k = rng.choice([0, 1, 2, 3]) * chunk + rng.choice([-1, 0, 1, 0, rng.randint(0, chunk)])
    n = min(max(0, k), 3500 if ctx.thorough else 2200)
    uniq = level != 'class'
    data = [(f'{i} ' if uniq and rng.random() < 0.9 else '') + rng.choice(lines) for i in range(n)]
    want = [list(s.encode(l)) for l in data]
    kind = rng.choice(['list', 'gen', 'iter', 'slow_gen', 'tuple'])
    src = feed(kind, data, ctx.tmp)
    slow = 3 if n > 500 else 100
    tag = (level, n, chunk, n_cpus, kind, mode)
    if mode in ('encode', 'default'):
        S = s
        if rng.random() < 0.7:
            S = slow_class(type(s))(list(s.table))
            S.salt, S.slow = rng.random(), slow
        it = S.encode_parallel(src, n_cpus=n_cpus) if mode == 'encode' else S.encode_parallel(src)
        got = [list(x) for x in it]
        ctx.equal(got, want, 'parallel encoding is not the sequential one', setting=tag)
        if level == 'byte' and n and n < 300:
            bad = list(data)
            bad[rng.randrange(n)] = 'x\ud800'
            ctx.raises(lambda: list(s.encode_parallel(bad, n_cpus=n_cpus)), 'a line that can not be encoded is dropped silently', setting=tag)
            ctx.count('encode_errors')
        ctx.sig(tag, len(set(map(tuple, want))))
    else:
        items = list(enumerate(data))
        fail = rng.randrange(n) if mode == 'mapper_error' and n else None
        ekind = rng.choice(KINDS)
        fn = Delayed(s.encode, rng.random(), slow, fail=fail, kind=ekind)
        wanti = list(zip(range(n), want))
        kw = dict(n_cpus=n_cpus, chunksize=chunk)
        if rng.random() < 0.5:
            kw['name'] = 'job'
        if mode == 'map':
            got = list(s.parallel_map(fn, feed(kind, items, ctx.tmp), **kw))
            ctx.equal([(g[0], list(g[1])) for g in got], wanti, 'parallel_map does not give all the results in order', setting=tag)
            done = sorted(range(len(got)), key=lambda j: got[j][3])
            ctx.count('out_of_order_completions', sum(1 for a, b in zip(done, done[1:]) if a > b))
            ctx.sig(tag, [g[2] - got[0][2] for g in got][:200], done[:100])
        elif mode == 'early_stop':
            it = s.parallel_map(fn, feed(kind, items, ctx.tmp), **kw)
            m = rng.randint(0, min(n, 5))
            got = list(itertools.islice(it, m))
            ctx.equal([(g[0], list(g[1])) for g in got], wanti[:m], 'first results are wrong', setting=tag)
            it.close()
            del it
            for _ in range(400):
                if not mp.active_children():
                    break
                time.sleep(0.01)
            ctx.check(not mp.active_children(), 'processes remain after the consumer has stopped', setting=tag)
            ctx.count('early_stops')
            ctx.sig(tag, m)
        else:
            if mode == 'input_error':
                at = rng.randint(0, n)
                src = failing(items, at, ekind)
                if at == n:
                    src = itertools.chain(items, failing([0], 0, ekind))
                ctx.count('input_errors')
            else:
                at = fail
                src = feed(kind, items, ctx.tmp)
                ctx.count('mapper_errors')
            got, err = [], None
            try:
                for g in s.parallel_map(fn, src, **kw):
                    got.append((g[0], list(g[1])))
            except Exception as e:
                err = e
                ctx.check(type(e) is type(error(ekind, '')), 'another error than the one raised', got=repr(e), raised=ekind, setting=tag)
            if at is None:
                ctx.check(err is None and not got, 'empty input')
            else:
                ctx.check(err is not None, f'{mode} is swallowed; results are dropped silently', at=at, got=len(got), n=n, setting=tag)
                ctx.check(len(got) <= at, 'results past the failed item', at=at, got=len(got))
                ctx.equal(got, wanti[:len(got)], 'results before the failure are wrong', setting=tag)
                ctx.sig(tag, at, len(got))
    ctx.count('runs')
    ctx.count('items', n)
    if ctx.i < 8:
        ctx.sample(dict(setting=tag))
