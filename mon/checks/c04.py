"""C04 bpe segmentation is greedy longest match"""
from mon import gen, build, oracle
from mon.oracle import SP

CASES = dict(quick=28000, thorough=200000)
RULE = ('case = bpe vocabulary (hand-made with overlapping/nested/duplicate/dead-end/very long entries, or learned) x lines made of '
        'its entries, their prefixes and foreign characters; oracle: quadratic longest-prefix matcher; '
        'distinct = distinct (vocabulary, piece sequence) with >1 piece')
NEED = dict(lines=3000, backups=500, unknowns=500, spanning_pieces=50, long_vocab=10)


def case(ctx):
    from nlcodec import BPEScheme
    rng = ctx.rng
    chars = gen.alphabet(rng, kinds=['ab', 'abc', 'ascii', 'deva', 'cjk', 'emoji', 'comb', 'latin', 'a'], maxn=12)
    long = ctx.i % 40 == 3
    if long or rng.random() < 0.7:
        table = gen.bpe_table(rng, chars=chars, n_merges=30 if long else None, long=long)
        s = BPEScheme(table)
        if long:
            ctx.count('long_vocab')
    else:
        s = build.learn(rng, 'bpe', gen.corpus(rng, chars=chars))
        table = s.table
    names = {t.name for t in table}
    n_lines = 4 if long else (12 if not ctx.thorough else 20)
    vocab_sig = hash(tuple(sorted(names)))
    for _ in range(n_lines):
        extra = chars + ['x', 'Я', '😀']
        line = gen.text_of_pieces(rng, table, extra=extra, maxn=4 if long else 14)
        if rng.random() < 0.1:
            line = gen.any_unicode(rng) + line
        if len(line) > 20000:
            line = line[:20000]
        text = oracle.marked(line)
        want = oracle.greedy(names, text)
        got = s.encode_str(line)
        ctx.equal(list(got), ['<unk>' if p is None else p for p in want], 'segmentation is not greedy longest match',
                  line=line, vocab=sorted(names)[:80])
        ids = s.encode(line)
        ctx.equal([table[i].name for i in ids], list(got), 'ids are not of the pieces', line=line)
        # conservation: pieces and unknowns cover the marked text, one character for each unknown
        pos = 0
        for p, w in zip(got, want):
            pos += 1 if w is None else len(p)
        ctx.check(pos == len(text), 'pieces do not cover the text', line=line)
        ctx.count('lines')
        ctx.count('pieces', len(got))
        ctx.count('unknowns', sum(1 for w in want if w is None))
        ctx.count('spanning_pieces', sum(1 for w in want if w and SP in w[:-1]))
        # how often a longer candidate begins but does not complete
        prefixes = None
        if len(names) < 400 and len(text) < 300:
            prefixes = {n[:k] for n in names for k in range(1, len(n) + 1)} if not long else None
        if prefixes:
            i = 0
            for w in want:
                l = 1 if w is None else len(w)
                if i + l < len(text) and text[i:i + l + 1] in prefixes:
                    ctx.count('backups')
                i += l
        if len(got) > 1:
            ctx.sig(vocab_sig, got)
    if ctx.i < 6:
        ctx.sample(dict(line=line[:100], pieces=got[:20], vocab=len(names)))
