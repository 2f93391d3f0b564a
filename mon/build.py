"""Makes schemes with the public API of the code under test"""
from mon import gen


def learn_kwargs(rng, level):
    kw = dict(vocab_size=rng.choice([-1, -1, 0, 6, 8, 12, 30, 500]), min_freq=rng.choice([None, 1, 1, 1, 2, 3]))
    if level in ('char', 'bpe'):
        kw['char_coverage'] = rng.choice([1.0, 1.0, 0.9995, 0.98, 0.9, 0.6])
    if level == 'bpe':
        kw['min_co_ev'] = rng.choice([1, 2, 2, 3, 5])
        kw['vocab_size'] = rng.choice([0, 200, 2000]) if kw['min_co_ev'] > 1 else rng.choice([60, 200, 1000])
    return kw


def n_base(lines):
    """upper bound of the size of base vocabulary of bpe"""
    return 7 + len({c for l in lines for c in l})


def learn(rng, level, lines, **kw):
    """:return: scheme object, with the table learned from lines"""
    from nlcodec import learn_vocab, REGISTRY
    args = learn_kwargs(rng, level)
    args.update(kw)
    if level == 'bpe' and args['vocab_size'] > 1:
        args['vocab_size'] = max(args['vocab_size'], n_base(lines) + 1)
    table = learn_vocab(inp=iter(lines), level=level, model=None, **args)
    return REGISTRY[level](table)


def some_scheme(rng, level, lines=None, chars=None):
    """a learned scheme or, for bpe, at times one made by hand. :return scheme, lines"""
    from nlcodec import BPEScheme, ByteScheme
    chars = chars or gen.alphabet(rng)
    lines = lines if lines is not None else gen.corpus(rng, chars=chars)
    if level == 'byte':
        return ByteScheme(), lines
    if level == 'bpe' and rng.random() < 0.5:
        return BPEScheme(gen.bpe_table(rng, chars=chars[:12])), lines
    return learn(rng, level, lines), lines
