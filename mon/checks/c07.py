"""C07 vocabulary selection of word and char schemes"""
from collections import Counter
from mon import gen, oracle

CASES = dict(quick=120000, thorough=1000000)
RULE = ('case = corpus (ties, reserved names inside, odd whitespace, empty lines) x level x (vocab_size, min_freq, coverage) around the '
        'boundaries; exact recount with fractions decides; distinct = distinct (counts, arguments, kept)')
ASSUMPTIONS = ['coverage boundary within 2**-51 may go either way', 'frequencies below 2**53 in all', 'order among equal frequencies is free']
NEED = dict(word=1000, char=1000, cut_by_size=300, cut_by_freq=300, cut_by_coverage=300, reserved_in_corpus=100, size_below_reserved=20, exact_coverage=500, huge=5, big_counts=100)


def pad_dyadic(rng, lines, level):
    """adds tokens until their number (without reserved ones) is a power of two, so that all the fractions are exact in floating point"""
    toks = [t for l in lines for t in (l.split() if level == 'word' else '▁'.join(l.split())) if t not in oracle.RES]
    if not toks:
        return
    size = 1
    while size < len(toks):
        size *= 2
    more = [rng.choice(toks) for _ in range(size - len(toks))]
    if level == 'word':
        lines.append(' '.join(more) + '\n' * lines[0].endswith('\n'))
    elif more:
        lines.append(''.join(more))


def big_counts(ctx):
    """a listing with frequencies of a huge corpus: parts of rare types are as small as the rounding errors of floating point"""
    from nlcodec import learn_vocab, REGISTRY
    rng = ctx.rng
    level = rng.choice(['word', 'char'])
    n = rng.choice([20, 100, 1000, 3000, 8000])
    names = [chr(0x4e00 + i) for i in range(n)] if level == 'char' else gen.huge_words(rng, n)
    top = rng.uniform(7, 12)
    counts = {t: int(10 ** rng.uniform(top - 4, top)) for t in names}
    for t in rng.sample(names, rng.randint(0, min(n - 1, 30))):
        counts[t] = rng.choice([1, 1, 2, 3, 10])
    lines = rng.choice([1, 10 ** 6, 10 ** 10])
    freqs = sorted(counts.values(), reverse=True)
    tot = sum(freqs)
    k = rng.randint(1, n)
    cov = rng.choice([1.0, 1.0, 0.9995, 0.9, sum(freqs[:k]) / tot, (tot - 1) / tot, (tot - freqs[-1]) / tot])
    cov = min(1.0, max(1e-6, cov))
    listing = ['#{"types": %d, "tokens": %d, "line_count": %d}\n' % (n, tot, lines)] + ['%s\t%d\n' % x for x in counts.items()]
    if level == 'char' and rng.random() < 0.5:
        table = learn_vocab(inp=iter(listing), level=level, model=None, vocab_size=-1, min_freq=1, char_coverage=cov, term_freqs=True)
    else:
        table = REGISTRY[level].learn(iter(listing), vocab_size=-1, min_freq=1, coverage=cov, term_freqs=True)
    oracle.VocabCheck(counts, lines, coverage=cov, min_freq=1, vocab_size=-1).verify(ctx, table, level=2 if level == 'word' else 0, scheme=level, size=n, tot=tot)
    ctx.count('big_counts')
    ctx.sig(tot, cov, len(table))


def case(ctx):
    from nlcodec import learn_vocab, REGISTRY
    if ctx.i % 100 == 47:
        return big_counts(ctx)
    rng = ctx.rng
    level = rng.choice(['word', 'char'])
    if ctx.i % 8009 == 11:
        lines = gen.huge_lines(rng)
        ctx.count('huge')
    else:
        lines = gen.corpus(rng, n_lines=rng.choice([1, 3, 10, 30, 80]))
    if rng.random() < 0.3:
        lines = [l + '\n' for l in lines]
    dyadic = rng.random() < 0.25
    if dyadic:
        pad_dyadic(rng, lines, level)
    counts = Counter()
    for l in lines:
        toks = l.split()
        if level == 'word':
            counts.update(toks)
        else:
            counts.update('▁'.join(toks))
    inres = [n for n in oracle.RES if n in counts]
    body = {k: v for k, v in counts.items() if k not in oracle.RES}
    n = len(body)
    freqs = sorted(body.values(), reverse=True)
    kw = dict(vocab_size=rng.choice([-1, -1, 0, 1, 5, 6, 7, n + 5, n + 6, n + 7, 6 + n // 2, rng.randint(1, n + 10)]),
              min_freq=rng.choice([1, 1, 2, 3, rng.choice(freqs or [1]), rng.choice(freqs or [1]) + 1]))
    cov = 0
    via = rng.choice(['learn_vocab', 'scheme'])
    Scheme = REGISTRY[level]
    if rng.random() < 0.6:
        tot = sum(freqs) or 1
        k = rng.randint(1, max(1, n))
        if dyadic:
            tied = [j for j in range(1, n) if freqs[j] == freqs[j - 1]]
            k = rng.choice(tied or [k])
        cov = rng.choice([1.0, 0.9995, 0.5, 0.99, rng.random() or 0.5, sum(freqs[:k]) / tot or 1.0, min(1.0, (sum(freqs[:k]) - 0.5) / tot or 1.0)])
        if dyadic and freqs and rng.random() < 0.8:
            cov = sum(freqs[:k]) / tot
            ctx.count('exact_coverage')
        cov = min(1.0, max(1e-6, cov))
    if via == 'learn_vocab':
        if level == 'word':
            cov = 0
        else:
            cov = cov or 0.9995
            kw['char_coverage'] = cov
        if rng.random() < 0.15:
            kw['min_freq'] = rng.choice([None, 0, -1])
        eff = kw['min_freq'] if (kw['min_freq'] or 0) >= 1 else (1 if level == 'word' else 20)
        table = learn_vocab(inp=rng.choice([list, iter])(lines), level=level, model=None, **kw)
    else:
        eff = kw['min_freq']
        table = Scheme.learn(iter(lines), coverage=cov, **kw)
    vc = oracle.VocabCheck(counts, len(lines), coverage=cov, min_freq=eff, vocab_size=kw['vocab_size'])
    vc.verify(ctx, table, level=2 if level == 'word' else 0, scheme=level, args=dict(kw, coverage=cov))
    if kw['vocab_size'] > 0:
        ctx.check(len(table) <= max(6, kw['vocab_size']), 'vocabulary is larger than asked for', size=len(table), asked=kw['vocab_size'])
    # conservation: all the tokens are in kept types, or the reserved ones found in corpus, or unk
    tok = sum(counts.values())
    acc = sum(t.freq for t in table[6:]) + max(0, table[1].freq) + sum(v for k, v in vc.inres.items() if k != '<unk>')
    ctx.equal(acc, tok, 'tokens are lost or counted twice', scheme=level, args=kw)
    ctx.equal(len(Scheme(table)), len(table), 'table is not accepted by the scheme')
    ctx.count(level)
    ctx.count('tokens', tok)
    kept = len(table) - 6
    if kw['vocab_size'] > 0 and 6 + kept == kw['vocab_size'] and kept < n:
        ctx.count('cut_by_size')
    if 0 < kw['vocab_size'] < 6:
        ctx.count('size_below_reserved')
    if eff > 1 and freqs and freqs[-1] < eff:
        ctx.count('cut_by_freq')
    if cov and kept < n:
        ctx.count('cut_by_coverage')
    if inres:
        ctx.count('reserved_in_corpus')
    ctx.sig(level, sorted(body.items()), kw, cov, kept)
    if ctx.i < 4:
        ctx.sample(dict(level=level, types=n, args=kw, coverage=cov, kept=kept, unk=table[1].freq))
