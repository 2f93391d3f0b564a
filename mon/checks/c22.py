"""C22 quality measures"""
import math
from collections import Counter
from fractions import Fraction
import numpy as np
from mon import gen, build

CASES = dict(quick=11000, thorough=200000)
RULE = ('case = a codec of any scheme (fresh, loaded, hand-made, class) x a text of 1-40 lines (empty lines, unknowns, foreign characters), measured '
        'by QualityEstimator.estimate and recounted with rational numbers; and 10 pairs of distributions (sizes 1-3000, zeros, equal, disjoint, '
        'concentrated, denormal, permuted) for EMD, KL and JS, and vectors which are not distributions; distinct = distinct (scheme, token counts) and distributions')
NEED = dict(estimates=3000, unknowns=5000, no_unk_type=500, tokens=50000, distributions=30000, equal_pairs=3000, disjoint_pairs=1000, zeros=5000, refused=30000, huge=3)
ASSUMPTIONS = ['at least one line and one token of the vocabulary in the text', 'floating point results up to a relative error of 1e-9']
TOL = 1e-9


def near(a, b, tol=TOL):
    return abs(float(a) - float(b)) <= tol * max(1.0, abs(float(b)))


def estimate_case(ctx):
    from nlcodec import REGISTRY, learn_vocab, load_scheme
    from nlcodec.qestim import QualityEstimator
    rng = ctx.rng
    level = rng.choice(['word', 'char', 'bpe', 'byte', 'class', 'bpe'])
    chars = gen.alphabet(rng)
    lines = gen.corpus(rng, chars=chars)
    if level == 'class':
        labels = [l.strip() or 'x' for l in lines]
        codec = REGISTRY['class'](learn_vocab(inp=iter(labels), level='class', model=None, vocab_size=-1))
        text = [rng.choice(labels) if rng.random() < 0.8 else 'unseen ' + gen.word(rng, chars) for _ in range(rng.randint(1, 40))]
        seen = set(labels)
        ids = [[codec.str_to_idx[t]] if t in seen else [None] for t in text]
    else:
        codec, lines = build.some_scheme(rng, level, lines=lines, chars=chars)
        if rng.random() < 0.3:
            codec.save(ctx.tmp / 'm')
            codec = load_scheme(ctx.tmp / 'm')
        text = [rng.choice(lines) if rng.random() < 0.7 else gen.random_text(rng, chars + ['ж', '☂']) for _ in range(rng.randint(1, 40))]
        if ctx.i % 1009 == 11:
            text = [rng.choice(lines) for _ in range(rng.choice([3000, 70000 // max(1, len(lines[0]))]))]
            text += [gen.random_text(rng, chars + ['ж', '☂'])] * rng.choice([0, 300])
            ctx.count('huge')
        if rng.random() < 0.1:
            text[rng.randrange(len(text))] = ''
        ids = [list(codec.encode(l)) for l in text]
    stats = Counter(i for s in ids for i in s)
    n_tok = sum(stats.values())
    oov = stats.pop(None, 0)
    known = sum(stats.values())
    if not known:
        return
    k = len(codec.table)
    if level == 'class':
        unk = oov
    elif level == 'byte':
        unk = 0
    else:
        unk = stats[1]
    ctx.count('no_unk_type', level in ('class', 'byte'))
    q = QualityEstimator(codec).estimate(iter(text) if rng.random() < 0.7 else text)
    info = dict(scheme=level, text=text[:10], vocab=k)
    ctx.check(int(q.n_types) == k, 'n_types is not the vocabulary size', got=q.n_types, want=k, **info)
    ctx.check(int(q.n_tokens) == n_tok, 'n_tokens is not the number of tokens', got=q.n_tokens, want=n_tok, **info)
    ctx.check(near(q.mean_seq_len, Fraction(n_tok, len(text))), 'mean_seq_len', got=q.mean_seq_len, want=n_tok / len(text), **info)
    ctx.check(int(q.unk_count) == unk, 'unk_count is not the number of unknowns', got=q.unk_count, want=unk, **info)
    want = sum(abs(Fraction(stats[i], known) - Fraction(1, k)) for i in range(k)) / 2
    ctx.check(near(q.imbalance, want), 'imbalance is not half the L1 distance to the uniform distribution', got=q.imbalance, want=float(want), **info)
    ctx.check(-1e-12 <= q.imbalance < 1, 'imbalance is not in [0, 1)', got=q.imbalance, **info)
    ctx.count('estimates')
    ctx.count('unknowns', unk)
    ctx.count('tokens', n_tok)
    ctx.sig(level, sorted(stats.items()), len(text))
    if ctx.i < 6:
        ctx.sample(dict(scheme=level, quality=repr(q), lines=len(text)))


def distr(rng, k):
    kind = rng.choice(['rand', 'rand', 'zeros', 'one', 'uniform', 'counts', 'tiny', 'zipf'])
    if kind == 'rand':
        v = [rng.random() + 1e-12 for _ in range(k)]
    elif kind == 'zeros':
        v = [rng.random() if rng.random() < 0.4 else 0.0 for _ in range(k)]
    elif kind == 'one':
        v = [0.0] * k
        v[rng.randrange(k)] = 1.0
    elif kind == 'uniform':
        v = [1.0] * k
    elif kind == 'counts':
        v = [float(rng.randint(0, 5)) for _ in range(k)]
    elif kind == 'tiny':
        v = [10.0 ** -rng.randint(0, 300) for _ in range(k)]
    else:
        v = [1.0 / (i + 1) for i in range(k)]
        rng.shuffle(v)
    if sum(v) == 0:
        v[rng.randrange(k)] = 1.0
    a = np.array(v)
    return a / np.sum(a)


def kl(p, q):
    return math.fsum(a * (math.log(a) - math.log(b)) for a, b in zip(p, q) if a > 0)


def distr_case(ctx):
    from nlcodec.qestim import QualityEstimator as Q
    rng = ctx.rng
    for _ in range(10):
        k = rng.choice([1, 2, 3, 10, rng.randint(1, 60), 3000 if rng.random() < 0.05 else 7])
        p = distr(rng, k)
        r = rng.random()
        if r < 0.15:
            q = p.copy()
            ctx.count('equal_pairs')
        elif r < 0.25 and k > 1:
            # disjoint supports
            cut = rng.randint(1, k - 1)
            p = p.copy()
            q = distr(rng, k)
            p[cut:] = 0
            q[:cut] = 0
            if p.sum() <= 1e-200 or q.sum() <= 1e-200:
                continue
            p, q = p / p.sum(), q / q.sum()
            ctx.count('disjoint_pairs')
        elif r < 0.35:
            q = p[np.array(rng.sample(range(k), k))]
        else:
            q = distr(rng, k)
        P, K = [float(x) for x in p], [float(x) for x in q]
        ctx.count('distributions')
        ctx.count('zeros', P.count(0.0) > 0)
        info = dict(p=P[:20], q=K[:20])
        cost = rng.choice([0.5, 0.5, 1, 2.5])
        l1 = math.fsum(abs(a - b) for a, b in zip(P, K))
        pc, qc = p.copy(), q.copy()
        e = Q.earth_mov_dist(p, q, moving_cost=cost) if cost != 0.5 or rng.random() < 0.5 else Q.earth_mov_dist(p, q)
        ctx.check(near(e, cost * l1), 'earth mover distance is not cost times the L1 distance', got=float(e), want=cost * l1, **info)
        ctx.check(near(Q.earth_mov_dist(q, p, moving_cost=cost), e), 'earth mover distance is not symmetric', **info)
        ctx.check(e >= -1e-12, 'earth mover distance is negative', got=float(e), **info)
        j, j2 = float(Q.js_div(p, q)), float(Q.js_div(q, p))
        M = [0.5 * (a + b) for a, b in zip(P, K)]
        wj = 0.5 * (kl(P, M) + kl(K, M))
        ctx.check(near(j, wj), 'JS divergence is not as defined', got=j, want=wj, **info)
        ctx.check(near(j, j2), 'JS divergence is not symmetric', got=j, rev=j2, **info)
        ctx.check(-1e-9 <= j <= math.log(2) + 1e-9, 'JS divergence is not in [0, log 2]', got=j, **info)
        if all(b > 0 for a, b in zip(P, K) if a > 0):
            d = float(Q.kl_div(p, q))
            ctx.check(near(d, kl(P, K)), 'KL divergence is not as defined', got=d, want=kl(P, K), **info)
            ctx.check(d >= -1e-9, 'KL divergence is negative', got=d, **info)
            ctx.count('kl')
        if P == K:
            ctx.check(abs(e) < 1e-12 and abs(j) < 1e-9 and abs(float(Q.kl_div(p, q))) < 1e-9, 'distance of equal distributions is not zero', **info)
        ctx.check((pc == p).all() and (qc == q).all(), 'the measures change their arguments', **info)
        # what is not a pair of distributions is refused
        bad, how = q.copy(), rng.choice(['sum', 'negative', 'length'])
        if how == 'sum':
            bad = bad * rng.choice([0.5, 0.99, 1.01, 2, 0])
        elif how == 'negative' and k > 1:
            x, y = rng.sample(range(k), 2)
            bad[x] += bad[y] + 0.01
            bad[y] = -0.01
        else:
            bad = distr(rng, k + 1)
        for f, name in ((Q.earth_mov_dist, 'earth_mov_dist'), (Q.js_div, 'js_div')):
            a, b = (p, bad) if rng.random() < 0.5 else (bad, p)
            ctx.raises(lambda: f(a, b), f'{name} takes what is not a pair of distributions', how=how, **info)
            ctx.count('refused')
        counts = np.array([rng.choice([0, 0, 1, 5, 10 ** 6]) for _ in range(k)]) + 0
        if counts.sum() > 0:
            n = int(counts.sum())
            w = sum(abs(Fraction(int(c), n) - Fraction(1, k)) for c in counts) / 2
            m = rng.choice([1, 1, 2, 0.5])
            g = Q.EMD_simple(counts if rng.random() < 0.5 else [int(c) for c in counts], moving_cost=m)
            ctx.check(near(g, float(w) * m), 'EMD_simple is not half the L1 distance to the uniform', got=float(g), want=float(w) * m,
                      counts=counts[:20].tolist())
        ctx.sig(P[:50], K[:50])


def case(ctx):
    estimate_case(ctx)
    distr_case(ctx)
