"""C01 text round trip"""
from mon import gen, build, oracle
from mon.oracle import SP, norm

CASES = dict(quick=32000, thorough=240000)
RULE = ('case = a scheme (learned from a generated corpus or hand-made) x 6-30 lines (corpus lines, mutations, foreign '
        'characters, odd whitespace, long); non-trivial and distinct = distinct (scheme, decoded text, unknown count)')
ASSUMPTIONS = ['no lone surrogates in text', 'U+2581 not in text of char and bpe']
NEED = dict(word_lines=100, char_lines=100, bpe_lines=100, byte_lines=100, unknown_units=100, bytes_decoded=100, long_byte_lines=20, huge=5)


def mutate(rng, line, chars):
    ls = list(line)
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        pos = rng.randint(0, len(ls))
        if r < 0.4:
            ls.insert(pos, rng.choice(chars))
        elif r < 0.6 and ls:
            ls.pop(min(pos, len(ls) - 1))
        elif r < 0.8:
            ls.insert(pos, rng.choice(gen.SPACES))
        else:
            ls.insert(pos, chr(rng.choice([0x3b1, 0x416, 0x1F600, 0x4e00, 0x2047, 0x301, 0x200d, 0x7f, 0, 0x1b])))
    return ''.join(ls)


def test_lines(rng, lines, chars, n):
    res = []
    for _ in range(n):
        r = rng.random()
        if r < 0.35:
            res.append(rng.choice(lines))
        elif r < 0.7:
            res.append(mutate(rng, rng.choice(lines), chars))
        elif r < 0.85:
            res.append(gen.random_text(rng, chars))
        elif r < 0.95:
            res.append(gen.any_unicode(rng))
        else:
            res.append(rng.choice(['', ' ', '\n', '\t \n', ' '.join(lines)[:5000], rng.choice(chars) * rng.randint(1, 400)]))
    return res


def byte_case(ctx):
    from nlcodec import ByteScheme, load_scheme
    rng = ctx.rng
    s = ByteScheme()
    if rng.random() < 0.3:
        s.save(ctx.tmp / 'm')
        s = load_scheme(ctx.tmp / 'm')
    if ctx.i % 40 == 3:  # longer than any buffer
        ctx.count('long_byte_lines')
        n = rng.choice([4096, 8192, 65536, 70000]) + rng.randint(-4, 4)
        unit = rng.choice(['的', '😀', 'é', 'a的', '\x00😀', gen.any_unicode(rng, 50) + '的'])
        line = 'x' * rng.randint(0, 4) + unit * (n // len(unit.encode('utf8')) + 1)
        for line in (line, line[:-1]):
            ids = s.encode(line)
            ctx.equal(list(ids), list(line.encode('utf8')), 'byte ids of a long line are not the UTF-8 bytes')
            ctx.check(s.decode(ids) == line, 'byte decode(encode(line)) is not the line (long)', unit=unit, n=len(line))
            ctx.check(s.decode_str(s.encode_str(line)) == line, 'byte decode_str(encode_str(line)) is not the line (long)', unit=unit, n=len(line))
    for _ in range(30):
        line = gen.any_unicode(rng, rng.choice([3, 20, 200])) if rng.random() < 0.7 else gen.random_text(
            rng, gen.alphabet(rng)) + rng.choice(['', '\n', '\r\n', '\x00', ' '])
        ids = s.encode(line)
        ctx.equal(list(ids), list(line.encode('utf8')), 'byte ids are not the UTF-8 bytes', line=line)
        ctx.equal(s.decode(ids), line, 'byte decode(encode(line)) is not the line', line=line)
        ctx.equal(s.decode_str(s.encode_str(line)), line, 'byte decode_str(encode_str(line)) is not the line', line=line)
        ctx.count('byte_lines')
        if line:
            ctx.sig('byte', line)
    long = ctx.i % 40 == 3
    for _ in range(3 if long else 20):
        ids, want, buf = [], '', []
        for _ in range(rng.choice([1500, 5000, 40000]) if long else rng.randint(0, 20)):
            r = rng.random()
            if r < 0.12:
                ids.append(256)
                want += bytes(buf).decode('utf8', 'replace') + '<s>'
                buf = []
            elif r < 0.2:
                ids.append(257)
                want += bytes(buf).decode('utf8', 'replace') + '</s>'
                buf = []
            else:
                bs = [rng.randrange(256)] if r < 0.6 else list(rng.choice('aé的😀\n\0').encode('utf8'))
                ids += bs
                buf += bs
        want += bytes(buf).decode('utf8', 'replace')
        ctx.equal(s.decode(ids), want, 'decoding of bytes is not the UTF-8 decoding', ids=ids)
        ctx.count('bytes_decoded', len(ids))
        ctx.sig('bytes', ids)


def case(ctx):
    rng = ctx.rng
    level = ['word', 'char', 'bpe', 'byte', 'bpe'][ctx.i % 5]
    if level == 'byte':
        return byte_case(ctx)
    chars = gen.alphabet(rng)
    if ctx.i % 2203 == 11:
        from nlcodec import REGISTRY
        table = gen.huge_table(rng, level)
        scheme = REGISTRY[level](table)
        lines = [gen.huge_text(rng, table, level) for _ in range(4)] + [table[-1].name, table[65536 % len(table)].name]
        chars += [t.name for t in table[-20:] if len(t.name) == 1]
        ctx.count('huge')
    else:
        scheme, lines = build.some_scheme(rng, level, chars=chars)
    if rng.random() < 0.2:
        from nlcodec import load_scheme
        scheme.save(ctx.tmp / 'm')
        scheme = load_scheme(ctx.tmp / 'm')
    names = {t.name for t in scheme.table}
    single = {n for n in names if len(n) == 1}
    for line in test_lines(rng, lines, chars, 6 if not ctx.thorough else 12):
        if level != 'word':
            line = line.replace(SP, '')
        text = norm(line)
        if level == 'word':
            units = text.split(' ') if text else []
            want = ' '.join(w if w in names else '<unk>' for w in units)
            unk = sum(1 for w in units if w not in names)
        elif level == 'char':
            units = list(text)
            want = ''.join(c if (c in names or c == ' ') else '<unk>' for c in units)
            unk = sum(1 for c in units if c not in names and c != ' ')
        else:
            # with all the characters covered the text comes back, else by longest match of pieces
            if all(c in single or c == ' ' for c in text):
                want, unk = text, 0
            else:
                pieces = oracle.greedy(names, oracle.marked(line))
                unk = sum(1 for p in pieces if p is None)
                want = ''.join('<unk>' if p is None else p for p in pieces).replace(SP, ' ').strip()
        got = scheme.decode(scheme.encode(line))
        ctx.equal(got, want, f'{level}: decode(encode(line)) is not the line', line=line, unknown=unk,
                  vocab=sorted(names)[:60])
        ctx.count(f'{level}_lines')
        ctx.count('unknown_units', unk)
        if text:
            ctx.sig(level, want, unk)
    if ctx.i < 10:
        ctx.sample(dict(scheme=level, line=line, decoded=got, unknown=unk, vocab_size=len(names)))
