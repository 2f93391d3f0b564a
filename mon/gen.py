"""Generators of texts, corpora and vocabularies. Everything is drawn from a random.Random"""
import itertools

RESERVED = ['<pad>', '<unk>', '<s>', '</s>', '<cls>', '▁']
SP = '▁'

ALPHABETS = {
    'ascii': 'abcdefghijklmnopqrstuvwxyzABCXYZ0123456789.,!?-\'"#$%&()*+/:;<=>@[]^_`{|}~\\',
    'ab': 'ab',
    'abc': 'abc',
    'a': 'a',
    'latin': 'aàáâäbcçdeèéêfgñoöøßüÿœšžıİſ',
    'deva': 'कखगघचजटडतदनपबमयरलवशसहािीुूेैोौंः्ँअआइईउऊ',
    'cjk': '的一是不了人我在有他这中大来上国日本語漢字カナひらがな한국어',
    'emoji': '😀😂🔀👨‍👩‍👧‍👦🇺🇸✈️❤️𝔘𝔫𝔦𝔠𐍈𝄞',
    'comb': 'e\u0301a\u0308n\u0303o\u0328\u0345\u200d\u200c\u200b\ufeff\u00ad\u2060',
    'ctrl': '\x00\x01\x02\x07\x08\x0e\x1b\x7f\x80\x86\x9f\ufffe\uffff\U0010ffff\ue000',
    'rtl': 'שלוםعربيةبالعالم',
    'punct': '#{}"\\:,\t'.replace('\t', '') + '⁇⋮|→',
}
# all of these are whitespace for str.split()
SPACES = [' ', ' ', ' ', ' ', '  ', '\t', '\u3000', '\xa0', '\u2009', '\x85', '\x0b', '\x0c', '\u2028', '\u2029',
          '\x1c', '\x1f', '\u1680', '\u205f']


def alphabet(rng, kinds=None, maxn=40):
    kind = rng.choice(kinds or list(ALPHABETS))
    chars = list(dict.fromkeys(c for c in ALPHABETS[kind] if not c.isspace() and c != SP))
    if rng.random() < 0.3:
        kind2 = rng.choice(list(ALPHABETS))
        chars += [c for c in ALPHABETS[kind2] if not c.isspace() and c not in chars and c != SP]
    chars = list(dict.fromkeys(chars))
    rng.shuffle(chars)
    return chars[:rng.randint(1, maxn)]


def word(rng, chars, maxlen=8):
    r = rng.random()
    if r < 0.12:  # repeats
        unit = ''.join(rng.choice(chars) for _ in range(rng.randint(1, 3)))
        return (unit * rng.randint(2, 9))[:max(2, maxlen * 2)]
    if r < 0.2:
        return rng.choice(chars) * rng.randint(1, 3)
    if r > 0.997 and maxlen > 2:  # rare and very long
        return ''.join(rng.choice(chars) for _ in range(rng.choice([65, 129, 257, 300])))
    return ''.join(rng.choice(chars) for _ in range(rng.randint(1, maxlen)))


def lexicon(rng, chars, n, maxlen=8):
    stems = [word(rng, chars, maxlen) for _ in range(max(1, n // 2))]
    words = list(stems)
    while len(words) < n:
        a, b = rng.choice(stems), rng.choice(stems)
        words.append((a + b)[:maxlen * 3] if rng.random() < 0.5 else word(rng, chars, maxlen))
    return words[:n]


def line(rng, words, maxwords=10, spaces=False, minwords=0):
    n = rng.randint(minwords, maxwords)
    toks = [words[min(int(rng.expovariate(4.0 / max(1, len(words)))), len(words) - 1)] if rng.random() < 0.7
            else rng.choice(words) for _ in range(n)]
    if not spaces:
        return ' '.join(toks)
    res = ''
    if rng.random() < 0.3:
        res += rng.choice(SPACES)
    for i, t in enumerate(toks):
        if i:
            res += rng.choice(SPACES) * rng.randint(1, 2)
        res += t
    if rng.random() < 0.3:
        res += rng.choice(SPACES)
    return res


def corpus(rng, n_lines=None, spaces=None, reserved=None, maxwords=10, chars=None, n_words=None, maxlen=None, big=0.004):
    """list of lines. big: how often a corpus of many types comes"""
    chars = chars or alphabet(rng)
    if rng.random() < big:
        chars = chars + [chr(i) for i in range(0x4e00, 0x4e00 + rng.choice([300, 900]))]
        n_words, n_lines = rng.choice([400, 1200]), rng.choice([120, 500])
        rng.shuffle(chars)
    words = lexicon(rng, chars, n_words or rng.choice([1, 2, 3, 6, 15, 40]), maxlen or rng.choice([1, 2, 4, 8, 12]))
    if reserved is None:
        reserved = rng.random() < 0.15
    if reserved:
        words += rng.sample(RESERVED[:5], rng.randint(1, 3))
        if rng.random() < 0.4:
            words.append(SP)
        rng.shuffle(words)
    if spaces is None:
        spaces = rng.random() < 0.3
    n_lines = n_lines if n_lines is not None else rng.choice([1, 2, 5, 20, 60])
    lines = [line(rng, words, maxwords=maxwords, spaces=spaces) for _ in range(n_lines)]
    if rng.random() < 0.3:
        for _ in range(rng.randint(1, 3)):
            lines.insert(rng.randint(0, len(lines)), rng.choice(['', '', ' ', '   ']))
    if rng.random() < 0.01:  # one line that is much longer than the others
        lines.insert(rng.randint(0, len(lines)), line(rng, words, maxwords=1500, minwords=300, spaces=spaces))
    if not any(l.split() for l in lines):
        lines.append(rng.choice(words))
    return lines


def random_text(rng, chars, maxlen=60, sp=0.15):
    n = rng.randint(0, maxlen)
    return ''.join(rng.choice(SPACES) if rng.random() < sp else rng.choice(chars) for _ in range(n))


def any_unicode(rng, maxlen=40):
    """any code point but surrogates"""
    res = []
    for _ in range(rng.randint(0, maxlen)):
        r = rng.random()
        if r < 0.35:
            c = rng.randrange(0, 0x80)
        elif r < 0.55:
            c = rng.randrange(0, 0x20)
        elif r < 0.7:
            c = rng.randrange(0x80, 0x800)
        elif r < 0.85:
            c = rng.randrange(0x800, 0x10000)
        else:
            c = rng.randrange(0x10000, 0x110000)
        if 0xD800 <= c < 0xE000:
            c = 0xFFFD
        res.append(chr(c))
    return ''.join(res)


FREQS = [0, 0, 1, 2, 2 ** 31, 2 ** 40]


def bpe_table(rng, chars=None, n_merges=None, dup=None, long=False):
    """A bpe table made by hand: reserved, characters, and arbitrary compositions of earlier types"""
    from nlcodec import Type, Level, Reseved
    chars = chars if chars is not None else alphabet(rng, maxn=12)
    table = Reseved.with_reserved_types()
    for c in chars:
        table.append(Type(c, level=Level.char, idx=len(table), freq=rng.choice(FREQS) if rng.random() < 0.2 else rng.randint(1, 1000)))
    if dup is None:
        dup = rng.random() < 0.15
    names = {t.name for t in table}
    n = n_merges if n_merges is not None else rng.choice([0, 1, 3, 8, 20, 60])
    base = [t for t in table if t.level != Level.reserved] + [table[5]]
    maxlen = 3000 if long else 40
    for _ in range(n):
        for _try in range(20):
            recent = base[-8:] if rng.random() < 0.6 else base
            if rng.random() < 0.03:
                a, b = rng.choice(table), rng.choice(table)
            else:
                a, b = rng.choice(recent), rng.choice(base)
            if rng.random() < 0.5:
                a, b = b, a
            if long and rng.random() < 0.8:
                a = b = max(base, key=lambda t: len(t.name))
            name = a.name + b.name
            if len(name) > maxlen or (name in names and not dup):
                continue
            if SP in name[:-1] and rng.random() < 0.6:
                continue  # fewer of those spanning words
            t = Type(name, level=Level.subword, idx=len(table), freq=rng.choice(FREQS) if rng.random() < 0.2 else rng.randint(1, 1000), kids=(a, b))
            table.append(t)
            base.append(t)
            names.add(name)
            break
    return table


def text_of_pieces(rng, table, extra=(), maxn=14):
    """a line made of names of types, their prefixes, and foreign characters: makes dead ends for the trie walk"""
    names = [t.name for t in table[5:]]
    res = ''
    for _ in range(rng.randint(0, maxn)):
        r = rng.random()
        if r < 0.55:
            res += rng.choice(names)
        elif r < 0.75:
            n = rng.choice(names)
            res += n[:rng.randint(0, len(n))]
        elif r < 0.85 and extra:
            res += rng.choice(extra)
        elif r < 0.95:
            res += rng.choice(SPACES)
        else:
            res += rng.choice(RESERVED)
    return res.replace(SP, ' ')


def int_value(rng, lo, hi):
    r = rng.random()
    if r < 0.3:
        v = rng.choice([lo, hi, lo + 1, hi - 1])
    elif r < 0.6:
        v = rng.randint(lo, hi)
    else:
        v = rng.choice([0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536,
                        2 ** 31 - 1, 2 ** 31, -2 ** 31, -2 ** 31 - 1, 2 ** 32 - 1, 2 ** 32, 2 ** 53, 2 ** 53 + 1,
                        -2 ** 53 - 1, 2 ** 63 - 1, -2 ** 63, 2 ** 63, 2 ** 64 - 1])
    return min(hi, max(lo, v))


RANGES = [(0, 1), (0, 255), (-128, 127), (0, 65535), (-32768, 32767), (0, 2 ** 32 - 1), (-2 ** 31, 2 ** 31 - 1),
          (0, 2 ** 63 - 1), (-2 ** 63, 2 ** 63 - 1), (0, 2 ** 64 - 1), (-1, 255), (-129, 0), (0, 256), (250, 260),
          (32760, 32770), (65530, 65540), (-32770, 10), (2 ** 31 - 5, 2 ** 31 + 5), (2 ** 32 - 3, 2 ** 32 + 3),
          (2 ** 53 - 3, 2 ** 53 + 3), (-2 ** 53 - 3, 5), (2 ** 63 - 4, 2 ** 63 - 1), (2 ** 63 - 4, 2 ** 64 - 1)]


# ------------------------------------------------------------- sizes beyond 65536

def huge_words(rng, n):
    """n distinct words"""
    alpha = rng.sample('abcdefghijklmnopqrstuvwxyzéжк的😀', 12)
    first = rng.randrange(12 ** 5)
    res = []
    for i in range(first, first + n):
        w = ''
        while i:
            i, r = divmod(i, 12)
            w += alpha[r]
        res.append(w)
    assert len(set(res)) == n
    rng.shuffle(res)
    return res


def huge_lines(rng, n_types=None, per_line=None):
    """lines with a lot of types, many of which are repeated"""
    words = huge_words(rng, n_types or rng.choice([5000, 66000, 70000]))
    toks = words + [rng.choice(words[:300]) for _ in range(rng.choice([10, 5000, 30000]))]
    rng.shuffle(toks)
    k = per_line or rng.choice([1, 1, 50, 400, len(toks)])
    return [' '.join(toks[i:i + k]) for i in range(0, len(toks), k)]


def huge_table(rng, level):
    """a table with more than 65536 types"""
    from nlcodec import Type, Level, Reseved
    n = rng.choice([65531, 65540, 66000, 70000])
    table = [] if level == 'class' else Reseved.with_reserved_types()
    names = huge_words(rng, n) if level in ('word', 'class') else [chr(0x10000 + i) for i in range(n)]
    if level == 'class':
        names.sort()
    lev = dict(word=Level.word, char=Level.char, bpe=Level.char)
    lev['class'] = Level.clasz
    for name in names:
        table.append(Type(name, level=lev[level], idx=len(table), freq=rng.randint(1, 10 ** 6)))
    if level == 'bpe':
        names = {t.name for t in table}
        base = table[-3000:] + table[6:300] + [table[5]] * 50
        for _ in range(rng.choice([10, 3000])):
            a, b = rng.choice(base), rng.choice(base)
            if a.name + b.name not in names and SP not in a.name:
                names.add(a.name + b.name)
                table.append(Type(a.name + b.name, level=Level.subword, idx=len(table), freq=rng.randint(1, 1000), kids=(a, b)))
                base.append(table[-1])
    return table


def huge_text(rng, table, level, n=None):
    """a line of names of the types"""
    names = [t.name.replace(SP, ' ') for t in rng.choices(table[6:], k=n or rng.choice([10, 1000, 20000]))]
    if level == 'class':
        return names[0]
    return (' ' if level == 'word' else '').join(names).strip()
