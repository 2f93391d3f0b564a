"""C11 shrink_vocab"""
import gzip
from collections import Counter
from mon import gen, build, oracle
from mon.inlocale import c_locale

CASES = dict(quick=27000, thorough=250000)
RULE = ('case = scheme (word/char/bpe/class/byte; learned or hand-made with deep sharing of pieces) x 0-4 files (plain, gzip, empty, foreign) x '
        'min_freq; mapping, saved table and its encodings compared with the rule; distinct = distinct (kind, mapping)')
ASSUMPTIONS = ['for the byte scheme the line terminator of the files may or may not be counted']
NEED = dict(c_locale=100, shrunk=1000, removed=2000, kept_for_pieces=100, same_encoding=1000, huge=4, frequent=4)


def case(ctx):
    if ctx.i % 899 == 7 and not ctx.c_locale:
        return c_locale(ctx, 12)
    from nlcodec import REGISTRY, load_scheme, Type
    rng = ctx.rng
    level = ['bpe', 'word', 'bpe', 'char', 'bpe', 'class', 'bpe', 'byte'][ctx.i % 8]
    chars = [c for c in gen.alphabet(rng) if c not in '\t\r\n']
    lines = None
    if level == 'class':
        lines = [gen.line(rng, gen.lexicon(rng, chars, 10), maxwords=2) for _ in range(30)]
    if ctx.i % 2003 == 11 and level != 'byte':
        s = REGISTRY[level](gen.huge_table(rng, level))
        lines = [gen.huge_text(rng, s.table, level) for _ in range(6)]
        ctx.count('huge')
    else:
        s, lines = build.some_scheme(rng, level, lines=lines, chars=chars)
    table = list(s.table)
    rows = oracle.table_rows(table)
    data = []
    files = []
    frequent = ctx.i % 1801 == 13 and level != 'byte'
    for k in range(rng.choice([0, 1, 1, 2, 4]) if not frequent else 1):
        r = rng.random()
        if r < 0.1:
            ls = []
        elif r < 0.5:
            ls = [rng.choice(lines) for _ in range(rng.randint(1, 12))]
        elif level == 'bpe' and len(table) < 60000:
            ls = [gen.text_of_pieces(rng, table, extra=['Ж']) for _ in range(rng.randint(1, 12))]
        else:
            ls = [gen.random_text(rng, chars) for _ in range(rng.randint(1, 8))]
        if frequent:  # as many as fill a 16 bit counter
            one = rng.choice([t.name for t in table[6 if len(table) > 6 else 0:] if len(t.name) < 30])
            ls = [one] * (rng.choice([65535, 65536, 65537, 131072]) - rng.choice([0, 1])) + ls[:3]
            ctx.count('frequent')
        ls = [l.replace('\n', ' ').replace('\r', ' ') for l in ls]
        p = ctx.tmp / (f'f{k}.txt' + rng.choice(['', '', '.gz']))
        body = '\n'.join(ls) + ('\n' if ls and rng.random() < 0.8 else '')
        if p.name.endswith('.gz'):
            with gzip.open(p, 'wt', encoding='utf8', newline='\n') as f:
                f.write(body)
        else:
            p.write_text(body, encoding='utf8', newline='\n')
        files.append(p)
        data += (body[:-1] if body.endswith('\n') else body).split('\n') if body else []
    freqs = Counter()
    for l in data:
        freqs.update(i for i in s.encode(l) if i >= 0)
    maxf = max(freqs.values(), default=1)
    min_freq = rng.choice([1, 1, 1, 2, 3, maxf, maxf + 1])
    out = ctx.tmp / 'shrunk.model'
    save = rng.random() < 0.9
    if level == 'class' and not any(freqs[i] >= min_freq for i in range(len(table))):
        save = False  # nothing would be left to save
    mapping = s.shrink_vocab(files if rng.random() < 0.7 else list(files), min_freq=min_freq, save_at=out if save else None)
    keep = {i for i, t in enumerate(table) if t.level == -1 or freqs[i] >= min_freq}
    direct = set(keep)
    todo = list(keep)
    while todo:
        for k in table[todo.pop()].kids or ():
            if k.idx not in keep:
                keep.add(k.idx)
                todo.append(k.idx)
    want = sorted(keep)
    got = list(mapping)
    if level == 'byte':
        got = [i for i in got if i != 10]
        want = [i for i in want if i != 10]
    ctx.equal(got, want, f'{level}: types kept are not the needed ones', min_freq=min_freq,
              missing=[rows[i] for i in set(want) - set(got)][:5], extra=[rows[i] for i in set(got) - set(want)][:5])
    ctx.check(all(a < b for a, b in zip(mapping, mapping[1:])), 'mapping is not increasing')
    ctx.equal(oracle.table_rows(s.table), rows, 'shrink_vocab changed the vocabulary of the scheme itself')
    ctx.count('shrunk')
    ctx.count('removed', len(table) - len(mapping))
    ctx.count('kept_for_pieces', len(keep) - len(direct))
    if save and mapping:
        s2 = load_scheme(out)
        ctx.check(type(s2) is REGISTRY[level], 'shrunk model loads as another kind of scheme', got=type(s2).__name__, want=level)
        rev = {o: n for n, o in enumerate(mapping)}
        ctx.equal(oracle.table_rows(s2.table),
                  [(n, rows[o][1], rows[o][2], rows[o][3], tuple(rev[k] for k in rows[o][4])) for n, o in enumerate(mapping)],
                  f'{level}: shrunk table is not the kept types renumbered')
        for t in s2.table:
            for k in t.kids or ():
                ctx.check(s2.table[k.idx].name == k.name, 'sub-piece reference is wrong', type=t.signature())
        kept = set(mapping)
        for l in (data if not frequent else data[-4:]) + lines[:5]:
            ids = s.encode(l)
            if all(i in kept for i in ids):
                ctx.equal([mapping[i] for i in s2.encode(l)], list(ids), f'{level}: line of kept pieces is encoded otherwise', line=l)
                ctx.equal(s2.encode_str(l), s.encode_str(l), f'{level}: line of kept pieces gets other pieces', line=l)
                ctx.count('same_encoding')
    ctx.sig(level, rows, list(mapping))
    if ctx.i < 6:
        ctx.sample(dict(level=level, types=len(table), kept=len(mapping), min_freq=min_freq, files=len(files)))
