"""C06 save and load"""
import io
import json
from pathlib import Path
from mon import gen, build, oracle
from mon.inlocale import c_locale
from mon.checks.c01 import test_lines
from mon.checks.c02 import INNER

CASES = dict(quick=19600, thorough=200000)
RULE = ('case = vocabulary of one of five schemes (learned, hand-made, shrunk) saved to Path/str/file/StringIO and loaded back by one '
        'of them; tables and encodings compared; second generation; legacy headers; distinct = distinct tables')
ASSUMPTIONS = ['class labels without \\n and \\r']
NEED = dict(c_locale=100, reloads=1000, legacy=100, streams=100, with_kids=200, huge=4, surrogates=200)


def body(text):
    """rows without the header"""
    return text.split('\n', 1)[1] if text.startswith('#{') else text


def case(ctx):
    if ctx.i % 699 == 7 and not ctx.c_locale:
        return c_locale(ctx, 12)
    from nlcodec import REGISTRY, Type, load_scheme, learn_vocab, Level, Reseved
    rng = ctx.rng
    level = ['word', 'char', 'bpe', 'class', 'byte', 'bpe'][ctx.i % 6]
    chars = gen.alphabet(rng)
    if level != 'byte' and rng.random() < 0.05:  # as of malformed bytes at stdin, where errors are escaped, or of JSON
        chars = chars[:20] + rng.sample(['\udcff', '\udc80', '\udc85', '\udce2', '\ud800', '\udbff\udc00'[::-1][:1], '\udfff'], 3)
        ctx.count('surrogates')
    if level == 'class' :
        chars = [c for c in chars if c not in '\t\r\n']
        lines = [gen.line(rng, gen.lexicon(rng, chars, 10), maxwords=3) for _ in range(10)] + rng.choice([[], [''], ['a b ', '#{"x": 1}', '#'], ['a\tb', 'a\t5\t0\t3', '0\t0\t0\t0 0', 'a\t\tb'],
            ['a%sb' % c for c in INNER]])
    else:
        lines = gen.corpus(rng, chars=chars)
    huge = ctx.i % 1601 == 11 and level != 'byte'
    if huge:
        table = gen.huge_table(rng, level)
        s = REGISTRY[level](table)
        lines = [gen.huge_text(rng, table, level, n=rng.choice([5, 500])) for _ in range(4)]
        ctx.count('huge')
    else:
        s, lines = build.some_scheme(rng, level, lines=lines, chars=chars)
    if level == 'word' and not huge and rng.random() < 0.2:  # big frequencies, hash-like and number-like names
        table = Reseved.with_reserved_types()
        names = list(dict.fromkeys(['#', '#{', '"', '\\', '\\t', '\\n', '0', '-1', '1e5', 'None', '#{"a":1}', "''", '{}', ',', '，', '\u200b', '\ufeff', '\ufeffx', '\x00', '\x1a', '\x7f']))
        rng.shuffle(names)
        for n in names:
            table.append(Type(n, level=Level.word, idx=len(table), freq=rng.choice([0, 1, -1, 10 ** 15, 2 ** 70, 7])))
        s = REGISTRY['word'](table)
        lines = [' '.join(rng.sample(names, 5))]
    rows = oracle.table_rows(s.table)
    path = ctx.tmp / rng.choice(['model', 'm.tsv', 'a b', 'm[en-de].v', 'm*', '#m', '-', 'u.vocab' if ctx.c_locale else 'ü.vocab'])
    how = rng.choice(['path', 'str', 'file', 'stringio', 'learn'][:4 if huge else 5])
    sio = None
    if how == 'path':
        s.save(path)
    elif how == 'str':
        s.save(str(path))
    elif how == 'file':
        with open(path, 'w', encoding='utf8', errors='surrogatepass') as f:
            s.save(f)
            ctx.check(not f.closed, "the caller's stream is closed")
        ctx.count('streams')
    elif how == 'stringio':
        sio = io.StringIO()
        s.save(sio)
        path.write_text(sio.getvalue(), encoding='utf8', errors='surrogatepass')
        ctx.count('streams')
    else:
        args = dict(vocab_size=-1 if level != 'bpe' else 5000, min_freq=1)
        if level == 'bpe':
            args['min_co_ev'] = 2
        table = learn_vocab(inp=iter(lines), level=level, model=path, **args)
        s = REGISTRY[level](table)
        rows = oracle.table_rows(s.table)
    if any(r[4] for r in rows):
        ctx.count('with_kids')

    def load(p):
        h = rng.choice(['path', 'str', 'file', 'stringio'])
        if h == 'path':
            return load_scheme(Path(p))
        if h == 'str':
            return load_scheme(str(p))
        ctx.count('streams')
        if h == 'file':
            with open(p, 'r', encoding='utf8', errors='surrogatepass') as f:
                r = load_scheme(f)
                ctx.check(not f.closed, "the caller's stream is closed")
                return r
        with open(p, 'r', encoding='utf8', errors='surrogatepass', newline='') as f:
            return load_scheme(io.StringIO(f.read()))

    def same(s2, what):
        ctx.check(type(s2) is REGISTRY[level], f'{what}: another kind of scheme', got=type(s2).__name__, want=level)
        got = oracle.table_rows(s2.table)
        ctx.equal(got, rows, f'{level}: {what}: table is not the one saved', how=how)
        for t in s2.table:
            for k in t.kids or ():
                ctx.check(oracle.table_rows([k])[0] == rows[k.idx], f'{what}: sub-piece is not the type of the table', type=t.signature())
        for line in test_lines(rng, lines, chars, 4):
            ctx.equal(s2.encode_str(line), s.encode_str(line), f'{level}: {what}: pieces differ', line=line)
            ids = s.encode(line)
            ctx.equal(s2.encode(line), ids, f'{level}: {what}: ids differ', line=line)
            if all(i >= 0 for i in ids):
                ctx.equal(s2.decode(ids), s.decode(ids), f'{level}: {what}: decoding differs', line=line)
        ctx.count('reloads')

    s2 = load(path)
    same(s2, 'reload')
    path2 = ctx.tmp / 'second'
    s2.save(path2)
    ctx.equal(body(path2.read_text(encoding='utf8', errors='surrogatepass')), body(path.read_text(encoding='utf8', errors='surrogatepass')), f'{level}: saving again writes other rows')
    types, meta = Type.read_vocab(path2)
    ctx.equal(oracle.table_rows(types), rows, 'read_vocab')
    ctx.check(meta and meta.get('total') == len(rows), 'header has no total', meta=meta)
    same(load(path2), 'second generation')
    if level in ('word', 'char', 'bpe'):
        # older versions had no scheme in the header
        mx = max(r[2] for r in rows)
        if {'word': 2, 'char': 0, 'bpe': 1}[level] == mx:
            head = {'total': len(rows), 'version': '0.2.2', 'levels': {}, 'max_level': mx, 'created': 'x'}
            path3 = ctx.tmp / 'legacy'
            text = body(path.read_text(encoding='utf8', errors='surrogatepass'))
            if rng.random() < 0.3:  # the last column is left out when empty
                text = '\n'.join(l.rstrip('\t') for l in text.split('\n'))
            path3.write_text('#' + json.dumps(head) + '\n' + text, encoding='utf8', errors='surrogatepass')
            same(load(path3), 'legacy header')
            ctx.count('legacy')
    ctx.sig(rows)
    if ctx.i < 6:
        ctx.sample(dict(level=level, how=how, types=len(rows), rows=rows[-2:]))
