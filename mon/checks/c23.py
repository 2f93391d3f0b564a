"""C23 bpe_len tracker against a recount"""
from fractions import Fraction
from mon import gen, oracle
from mon.oracle import SP

CASES = dict(quick=3750, thorough=50000)
RULE = ('case = bpe vocabulary (learned on the data, on other data, or hand-made with repeats like a+a, aa+aa, ab+a) x data of 1-25 lines (runs of one '
        'character, unknown characters, empty lines, repeated lines); the list of (size, imbalance, mean length) is compared with a full recount after '
        'each merge, applied left to right; some cases encode with the real process pool; distinct = distinct (merges, data)')
NEED = dict(trackers=1500, merges=10000, same_pair_merges=500, applied=20000, unknowns=500, pools=5, many=5, steps=10000, composed=5000)
ASSUMPTIONS = ['merges of the vocabulary are pairs of earlier entries', 'U+2581 does not come in the text']
CHECK_TOL = 1e-9


def signs(table):
    return [(t.idx, t.name, t.level, t.freq, tuple(k.idx for k in t.kids or ())) for t in table]


def stepping(ctx, xt, scheme, table, n_base, data, info):
    """the codec that merges one by one encodes as a plain scheme with the vocabulary so far"""
    rng = ctx.rng
    n = len(table) - n_base
    distinct = len({t.name for t in table}) == len(table)
    for k in sorted({0, n, rng.randint(0, n), rng.randint(0, min(n, 3))}):
        while len(xt) < n_base + k:
            nxt = xt.peek_merge()
            got = xt.merge()
            ctx.check(got is nxt and got.name == table[len(xt) - 1].name, 'stepping codec: merges are not done in order of the vocabulary',
                      got=got.signature(), **info)
        ctx.equal((len(xt), xt.merges_remaining(), xt.total_types()), (n_base + k, n - k, len(table)), 'stepping codec: number of merges', **info)
        ctx.equal(signs(xt.table), signs(table[:n_base + k]), 'stepping codec: the table is not the vocabulary so far', k=k, **info)
        plain = scheme(table[:n_base + k])
        for l in rng.sample(data, min(len(data), 4)):
            ids = xt.encode(l)
            want = plain.encode(l)
            if not distinct:  # which of the types of one name is used is left open
                want, ids = [table[i].name for i in want], [table[i].name for i in ids]
            ctx.equal(ids, want, 'stepping codec: the encoding is not that of the vocabulary so far', k=k, line=l, **info)
            ids = plain.encode(l)
            ctx.equal(xt.encode_str(l), plain.encode_str(l), 'stepping codec: the pieces are not those of the vocabulary so far', k=k, line=l, **info)
            ctx.equal(xt.decode(ids), plain.decode(ids), 'stepping codec: the decoding is not that of the vocabulary so far', k=k, line=l, **info)
            ctx.count('steps')
            ctx.count('composed', sum(1 for i in ids if i >= n_base))


def case(ctx):
    from nlcodec import learn_vocab, BPEScheme
    from nlcodec.eval import bpe_len
    rng = ctx.rng
    chars = gen.alphabet(rng, kinds=['ab', 'abc', 'a', 'ascii', 'emoji', 'deva'], maxn=rng.choice([1, 2, 3, 8, 20]))
    data = gen.corpus(rng, chars=chars, spaces=rng.random() < 0.3, reserved=False, big=0)
    data = [l.replace(SP, '') for l in data][:25] or ['a']
    for _ in range(rng.choice([0, 0, 2])):
        c = rng.choice(chars)
        data.append(c * rng.randint(2, 14) + rng.choice(['', ' ', 'x' + c * 3, ' ' + c * 5]))
    learn_on = data if rng.random() < 0.6 else [l.replace(SP, '') for l in gen.corpus(rng, chars=chars, reserved=False, big=0)]
    many = ctx.i % 250 == 7  # counts beyond the limits of 16 bits, signed or not
    if many:
        unit = rng.choice([c for c in chars if c != SP] + ['ab'])
        data = data[:3] + [unit * rng.choice([200, 999])] * (rng.choice([33000, 70000]) // 200)
        ctx.count('many')
    if rng.random() < 0.15:
        data.insert(rng.randint(0, len(data)), '')
    path = ctx.tmp / 'm'
    if rng.random() < 0.35:
        table = gen.bpe_table(rng, chars=chars[:8])
        if any(t.level >= 1 and len(t.kids or ()) != 2 for t in table):
            table = None
        else:
            BPEScheme(table).save(path)
    else:
        table = None
    if table is None:
        size = 7 + len({c for l in learn_on for c in l if not c.isspace()}) + rng.choice([3, 10, 40, 200])
        table = learn_vocab(inp=iter(learn_on), level='bpe', model=None, vocab_size=size, min_co_ev=rng.choice([1, 2]),
                            char_coverage=rng.choice([1.0, 1.0, 0.9]))
        BPEScheme(table).save(path)
    # base: types with level below subword
    base = [t for t in table if t.level < 1]
    merges = [t for t in table if t.level >= 1]
    if not merges or [t.idx for t in base + merges] != list(range(len(table))) or any(len(m.kids) != 2 for m in merges):
        return
    ids = {t.name: t.idx for t in base}
    seqs = []
    for l in data:
        text = oracle.marked(l)
        # reserved entries can be matched too when the text spells them
        pieces = oracle.greedy(set(ids), text)
        seqs.append([1 if p is None else ids[p] for p in pieces])
        ctx.count('unknowns', sum(1 for p in pieces if p is None))

    def measure(k):
        n = sum(map(len, seqs))
        freq = {}
        for s in seqs:
            for i in s:
                freq[i] = freq.get(i, 0) + 1
        emd = sum(abs(Fraction(freq.get(i, 0), n) - Fraction(1, k)) for i in range(k)) / 2
        return k, float(emd), n / len(seqs)
    want = [measure(len(base))]
    for j, m in enumerate(merges):
        a, b = m.kids[0].idx, m.kids[1].idx
        before = sum(map(len, seqs))
        seqs = [oracle.merge_seq(s, a, b, m.idx)[0] for s in seqs]
        ctx.count('applied', before - sum(map(len, seqs)))
        ctx.count('same_pair_merges', a == b)
        want.append(measure(len(base) + j + 1))
    bpe = bpe_len.BPECodecXt(path if rng.random() < 0.5 else str(path))
    pool = ctx.i % 100 == 3
    if not pool:
        bpe.encode_parallel = lambda seqs, **kw: map(bpe.encode, seqs)
    else:
        ctx.count('pools')
    tracker = bpe_len.BpeTracker(bpe, iter(data) if rng.random() < 0.7 else data)
    got = tracker.track_merges()
    info = dict(data=data[:20], merges=[m.signature() for m in merges[:40]])
    ctx.equal([int(g[0]) for g in got], [w[0] for w in want], 'tracker: vocabulary sizes', **info)
    for g, w in zip(got, want):
        ctx.check(abs(float(g[2]) - w[2]) <= CHECK_TOL * max(1, w[2]), 'tracker: mean sequence length is not that of a recount', got=[float(x) for x in g],
                  want=w, **info)
        ctx.check(abs(float(g[1]) - w[1]) <= CHECK_TOL, 'tracker: imbalance is not that of a recount', got=[float(x) for x in g], want=w, **info)
    ctx.count('trackers')
    ctx.count('merges', len(merges))
    stepping(ctx, bpe_len.BPECodecXt(path), BPEScheme, table, len(base), data, info)
    ctx.equal(signs(bpe.table), signs(table), 'tracker: the table after all merges is not the vocabulary', **info)
    ctx.sig([(m.kids[0].idx, m.kids[1].idx) for m in merges], data)
    if ctx.i < 4:
        ctx.sample(dict(data=data[:5], first=want[0], last=want[-1]))
