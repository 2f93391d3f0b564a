"""C10 term-frequency listings"""
import gzip
import io
import json
from collections import Counter
from mon import gen, oracle
from mon.inlocale import c_locale

CASES = dict(quick=22000, thorough=300000)
RULE = ('case = term table (terms starting with #, JSON-like, Unicode) written by write_stats to text/gzip/StringIO or composed by hand with or '
        'without a header, read back, and used for learning word/char/bpe next to learning from the text; distinct = distinct (listing, level)')
ASSUMPTIONS = ['terms have no whitespace', 'the header is the first line, starts with # and is not of two columns']
NEED = dict(c_locale=100, listings=2000, gz=200, headerless=200, hash_terms=200, learned_bpe=300, learned_word=300, learned_char=100, huge=2)


def case(ctx):
    if ctx.i % 1099 == 7 and not ctx.c_locale:
        return c_locale(ctx, 12)
    from nlcodec import learn_vocab, REGISTRY, WordScheme
    from nlcodec.term_freq import write_stats
    from nlcodec.utils import IO
    rng = ctx.rng
    level = rng.choice(['word', 'bpe', 'char'])
    if ctx.i % 2203 == 11 and level != 'bpe':
        lines = gen.huge_lines(rng)
        ctx.count('huge')
    else:
        lines = gen.corpus(rng)
    if rng.random() < 0.3:
        hashes = ['#', '##', '#{}', '#{"a":1}', '#tag', '#1', '{"line_count":3}', '"', '\\t']
        lines += [' '.join(rng.sample(hashes, 3))] * rng.randint(1, 30)
        ctx.count('hash_terms')
    words = Counter(w for l in lines for w in l.split())
    if level == 'char':
        words = Counter(c for w, f in words.items() for c in w * f)
    stats = dict(words)
    lc = rng.choice([len(lines), 0, 10 ** 7])
    path = ctx.tmp / rng.choice(['stats.tsv', 'stats.gz', 'm.wordfreq.gz'])
    how = rng.choice(['write_stats', 'write_stats', 'stringio', 'nometa', 'hand'])
    want_lc = lc
    if how == 'write_stats':
        with IO.writer(path) as out:
            write_stats(dict(stats), out, line_count=lc, extra='x')
    elif how == 'nometa':
        with IO.writer(path) as out:
            write_stats(dict(stats), out)
        want_lc = -1
    elif how == 'stringio':
        out = io.StringIO()
        write_stats(Counter(stats), out, line_count=lc)
        with IO.writer(path) as f:
            f.write(out.getvalue())
    else:
        rows = list(stats.items())
        rng.shuffle(rows)
        with IO.writer(path) as f:
            f.write(''.join(f'{w}\t{n}\n' for w, n in rows))
        want_lc = -1
        ctx.count('headerless')
    if path.name.endswith('.gz'):
        ctx.count('gz')
        with gzip.open(path, 'rt', encoding='utf8', newline='\n') as f:
            raw = f.read()
    else:
        with open(path, encoding='utf8', newline='\n') as f:
            raw = f.read()
    if how != 'hand':
        rows = raw.split('\n')
        ctx.check(rows[0].startswith('#') and rows[-1] == '', 'listing has no header or is not terminated')
        head = json.loads(rows[0][1:])
        ctx.equal((head['types'], head['tokens']), (len(stats), sum(stats.values())), 'header totals are wrong')
        got = [tuple(r.rsplit('\t', 1)) for r in rows[1:-1]]
        ctx.equal(Counter({w: int(n) for w, n in got}), Counter(stats), 'listing does not have the counts')
        ctx.equal(len(got), len(stats), 'a term is listed twice or lost')
        ns = [int(n) for _, n in got]
        ctx.check(ns == sorted(ns, reverse=True), 'listing is not in the order of frequency')
    with IO.reader(path) as f:
        got, glc = WordScheme.read_term_freqs(f)
    ctx.equal(dict(got), stats, 'counts read are not the ones written', how=how)
    ctx.check(glc == want_lc, 'line count read is not the one written', got=glc, want=want_lc, how=how)
    ctx.count('listings')
    kw = dict(vocab_size=rng.choice([-1, 8, 30]), min_freq=rng.choice([1, 1, 2]))
    if level == 'bpe':
        nb = 7 + len({c for w in words for c in w})
        kw.update(vocab_size=rng.choice([0, nb + 5, nb + 300]), min_co_ev=rng.choice([2, 3]))
    cov = 0
    if level != 'word':
        cov = rng.choice([1.0, 0.9995, 0.9])
        kw['char_coverage'] = cov
    with IO.reader(path) as f:
        table = learn_vocab(inp=f, level=level, model=None, term_freqs=True, **kw)
    if level == 'bpe':
        oracle.verify_bpe(ctx, table, words, want_lc, cov, kw['vocab_size'], kw['min_co_ev'], how=how, kw=kw)
    else:
        oracle.VocabCheck(words, want_lc, coverage=cov, min_freq=kw['min_freq'], vocab_size=kw['vocab_size']).verify(
            ctx, table, level=2 if level == 'word' else 0, how=how, kw=kw)
    if level == 'word':
        raw_table = learn_vocab(inp=iter(lines), level=level, model=None, **kw)
        f = lambda t: Counter(x.freq for x in t[6:])
        ctx.equal(f(table), f(raw_table), 'frequencies differ from those learned from text')
        low = min((x.freq for x in table[6:]), default=0)
        ctx.equal({(x.name, x.freq) for x in table[6:] if x.freq > low}, {(x.name, x.freq) for x in raw_table[6:] if x.freq > low},
                  'types differ from those learned from text')
        ctx.equal(table[1].freq, raw_table[1].freq, 'unknowns differ from those learned from text')
    ctx.count('learned_' + level)
    ctx.sig(level, sorted(stats.items()), kw, how)
    if ctx.i < 4:
        ctx.sample(dict(level=level, how=how, terms=len(stats), kw=kw, types=len(table)))
