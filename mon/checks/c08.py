"""C08 bpe learning replayed against naive recounting"""
import random
import time
from collections import Counter
from contextlib import contextmanager, nullcontext
from unittest import mock
from mon import gen, oracle

CASES = dict(quick=28000, thorough=200000)
RULE = ('case = corpus with heavy repeats, ties and shared substrings (small alphabets, a^n words, weights) x (vocab_size, min co-evidence, '
        'coverage) x input route (lines, listing, term_freqs dict); each merge of the learned table is replayed by full recount; '
        'distinct = distinct learned tables with at least one merge')
ASSUMPTIONS = ['ties may be broken any way', 'for a pair of the same type (a a) the recorded frequency may be the overlapping or the merged count']
NEED = dict(merges_replayed=10000, steps_with_ties=1000, overlapping_merges=200, stopped_at_size=50, stopped_for_evidence=50,
            stopped_for_exhaustion=50, unk_in_corpus=100, large_counts=200, odd_clock=500, long_words=60)


def bpe_corpus(rng):
    r = rng.random()
    if r < 0.03:  # very long words
        chars = list(rng.choice(['ab', 'abcd', 'aab😀']))
        unit = ''.join(rng.choice(chars) for _ in range(rng.choice([2, 7])))
        words = [(unit * 2000)[:rng.choice([100, 128, 257, 300, 600, 1025])] + rng.choice(chars) for _ in range(rng.randint(1, 3))]
        words += [''.join(rng.choice(chars) for _ in range(rng.choice([120, 257, 513]))), 'ab', 'b']
    elif r < 0.35:  # tiny alphabets: dense interactions
        chars = list(rng.choice(['a', 'ab', 'abc', 'abcd', 'कख', '😀b']))
        words = [''.join(rng.choice(chars) for _ in range(rng.randint(1, rng.choice([3, 8, 20])))) for _ in range(rng.randint(1, 25))]
    elif r < 0.5:
        chars = list('abx')
        words = [rng.choice(['', 'x', 'b', 'xb']) + 'a' * rng.randint(1, 17) + rng.choice(['', 'x', 'b', 'aab']) for _ in range(rng.randint(1, 12))]
    elif r < 0.6:
        unit = ''.join(rng.choice('abc') for _ in range(rng.randint(1, 4)))
        words = [unit * rng.randint(1, 9) + rng.choice(['', 'a', unit[:1]]) for _ in range(rng.randint(1, 10))]
    else:
        return gen.corpus(rng, n_lines=rng.choice([1, 5, 20, 60]), big=0)
    if rng.random() < 0.5:  # words of weight
        lines = []
        for w in words:
            lines += [' '.join([w] * rng.randint(1, 6))] * rng.choice([1, 1, 2, 5])
        rng.shuffle(lines)
        return lines
    return [' '.join(words[i:i + 5]) for i in range(0, len(words), 5)]


def big_corpus(rng):
    """natural-like; thousands of merges"""
    chars = list('etaoinshrdlu')
    words = gen.lexicon(rng, chars, 400, 10)
    return [gen.line(rng, words, maxwords=20) for _ in range(400)]


@contextmanager
def fake_clock(rng):
    """time passes by leaps: a slow or suspended machine, or an adjusted clock"""
    now = [1e9]
    steps = rng.choice([[3], [3], [0, 0, 10], [-5, 3], [0.5, 100, -1000], [0]])
    r = random.Random(rng.random())

    def tick():
        now[0] += r.choice(steps)
        return now[0]

    with mock.patch.object(time, 'time', tick), mock.patch.object(time, 'monotonic', tick), mock.patch.object(time, 'perf_counter', tick):
        yield


def case(ctx):
    from nlcodec import learn_vocab, BPEScheme
    from nlcodec.bpe import BPELearn
    from nlcodec import codec
    rng = ctx.rng
    big = ctx.i % 200 == 17
    lines = big_corpus(rng) if big else bpe_corpus(rng)
    tfs = Counter(w for l in lines for w in l.split())
    cov = rng.choice([1.0, 1.0, 1.0, 0.9995, 0.95, 0.8, 0.5])
    nbase = 7 + len({c for w in tfs for c in w})
    min_co = rng.choice([1, 2, 2, 3, 5, 10])
    vs = nbase + rng.choice([1, 2, 3, 10, 50, 1000])
    if min_co > 1 and rng.random() < 0.4:
        vs = rng.choice([0, -1, 1])
    if big:
        vs, min_co = rng.choice([(nbase + 3000, 1), (0, 2)])
    route = rng.choice(['lines', 'lines', 'listing', 'scheme', 'learner', 'corpus'])
    line_count = len(lines)
    if route in ('listing', 'learner') and rng.random() < 0.3:  # counts of large corpora
        scale = rng.choice([10 ** 5, 2 ** 31, 2 ** 33 + 1, 10 ** 12])
        tfs = Counter({w: f * scale + rng.choice([0, 0, 1]) for w, f in tfs.items()})
        min_co = rng.choice([min_co, scale, 2 * scale])
        if min_co > 1 and vs <= 1:
            pass
        elif vs <= 1:
            vs = nbase + 50
        ctx.count('large_counts')
    if rng.random() < 0.3:  # the log line comes on every step, or the clock goes back
        clock = fake_clock(rng)
        ctx.count('odd_clock')
    else:
        clock = nullcontext()
    ctx.count('long_words', any(len(w) > 256 for w in tfs))
    kw = dict(vocab_size=vs, min_co_ev=min_co, min_freq=rng.choice([None, 1, 5]))
    with clock:
        if route == 'lines':
            table = learn_vocab(inp=iter(lines), level='bpe', model=None, char_coverage=cov, **kw)
        elif route == 'listing':
            rows = list(tfs.items())
            rng.shuffle(rows)
            line_count = rng.choice([-1, line_count])
            listing = ([] if line_count < 0 else ['#{"line_count": %d}\n' % line_count]) + [f'{w}\t{f}\n' for w, f in rows]
            table = learn_vocab(inp=iter(listing), level='bpe', model=None, term_freqs=True, char_coverage=cov, **kw)
        elif route == 'scheme':
            table = BPEScheme.learn(iter(lines), vocab_size=vs, coverage=cov, min_co_evidence=min_co)
        else:
            cov = 0
            line_count = None
            if vs <= 1:
                vs = 10 ** 6
            fac = lambda cf: codec.CharScheme.get_init_vocab(cf, coverage=0, min_freq=1)
            if route == 'learner':
                table = BPELearn.learn_subwords(dict(tfs), vocab_size=vs, min_co_evidence=min_co, init_vocab_factory=fac)
            else:
                table = BPELearn.learn_subwords_from_corpus(iter(lines), vocab_size=vs, min_co_evidence=min_co, init_vocab_factory=fac)
    ctx.count('route_' + route)
    nb = oracle.verify_bpe(ctx, table, tfs, line_count, cov, vs if vs > 1 else 0, min_co,
                           route=route, args=dict(vs=vs, min_co=min_co, cov=cov), lines=lines[:40])
    if cov < 1 and cov and table[1].freq > 0:
        ctx.count('unk_in_corpus')
    if len(table) > nb:
        ctx.sig(oracle.table_rows(table))
    if ctx.i < 5:
        ctx.sample(dict(lines=lines[:4], merges=[t.name for t in table[nb:nb + 6]], freqs=[t.freq for t in table[nb:nb + 6]]))
