"""C02 class scheme"""
from collections import Counter
from mon import gen

CASES = dict(quick=30000, thorough=160000)
RULE = ('case = a multiset of labels (spaces inside, punctuation, Unicode, prefixes of one another, blank), shuffled; '
        'all labels and unseen ones encoded and decoded; distinct = distinct label sets')
ASSUMPTIONS = ['labels have no line break; the separator of the decoder (comma) does not matter to single ids']
NEED = dict(labels=1000, unseen=500, permuted=100, reloaded=100, huge=4)


def label(rng, chars):
    r = rng.random()
    if r < 0.15:
        return rng.choice(['yes', 'no', 'yes no', 'no,yes', 'Yes', 'YES', 'yes ', '0', '00', '1', '10', '<unk>', '<s>',
                           '<pad>', '</s>', '<cls>', '▁', '#', '#{}', '-1', 'None', 'nan', ',', ' , '])
    if r < 0.17:
        return rng.choice(['a\tb', 'a\t0', '\t'.join(gen.word(rng, chars) for _ in range(rng.randint(2, 5))), 'a\t0\t0\t', '1\t1\t0\t2 3'])
    if r < 0.25:
        return ' '.join(gen.word(rng, chars) for _ in range(rng.randint(2, 4)))
    if r < 0.29:  # line breaks for str.splitlines, not for files
        return rng.choice(INNER).join(gen.word(rng, chars) for _ in range(rng.randint(2, 3)))
    return gen.word(rng, chars)


# no line breaks for files, and inside of a label no matter to strip()
INNER = ['\x85', '\u2028', '\u2029', '\x0b', '\x0c', '\x1c', '\x1d', '\x1e', '\x1f', '\xa0', '\u3000', '\x00']


def case(ctx):
    from nlcodec import learn_vocab, REGISTRY, load_scheme
    ClassScheme = REGISTRY["class"]
    rng = ctx.rng
    chars = [c for c in gen.alphabet(rng) if c not in '\t\r\n']
    pool = [label(rng, chars) for _ in range(rng.choice([1, 2, 3, 10, 60, 300]))]
    lines = [rng.choice(pool) for _ in range(rng.choice([1, 3, 30, 200]))]
    huge = ctx.i % 3701 == 11
    if huge:
        lines = gen.huge_lines(rng, n_types=rng.choice([66000, 70000]), per_line=1)
        ctx.count('huge')
    if rng.random() < 0.2:
        lines.append(rng.choice(['', '  ']))
    lines = [rng.choice(['', '', ' ', '\u3000']) + l + rng.choice(['', '', '\n', ' \n']) for l in lines]
    counts = Counter(l.strip() for l in lines)
    labels = sorted(counts)
    args = dict(vocab_size=rng.choice([-1, 0, 1, 3, 1000]), min_freq=rng.choice([None, 1, 2, 100]))
    if rng.random() < 0.3:
        args['char_coverage'] = rng.choice([0.5, 1.0])
    table = learn_vocab(inp=iter(lines), level='class', model=None, **args)
    ctx.equal([(t.idx, t.name, t.freq) for t in table], [(i, n, counts[n]) for i, n in enumerate(labels)],
              'class table is not the sorted labels with their counts', args=args)
    ctx.check(not any(t.is_reserved for t in table), 'reserved types in class table')
    lines2 = list(lines)
    rng.shuffle(lines2)
    table2 = learn_vocab(inp=iter(lines2), level='class', model=None, **args)
    ctx.equal(table2, table, 'the order of labels changes the class table')
    ctx.count('permuted')
    s = ClassScheme(table)
    if rng.random() < 0.5:
        s.save(ctx.tmp / 'm')
        s = load_scheme(ctx.tmp / 'm')
        ctx.check(type(s) is ClassScheme, 'class scheme loads as another', got=type(s).__name__)
        ctx.count('reloaded')
    ctx.equal(len(s), len(labels), 'size of class scheme')
    order = list(enumerate(labels))
    rng.shuffle(order)
    for i, l in order[:3000]:
        ids = s.encode(rng.choice(['', ' ']) + l + rng.choice(['', '\n']))
        ctx.equal(list(ids), [i], 'label does not encode to its id', label=l)
        ctx.equal(s.decode(ids), l, 'label does not decode back', label=l)
        ctx.count('labels')
    for _ in range(10):
        base = rng.choice(labels)
        u = rng.choice([label(rng, chars), base + 'x', base[:-1], base.upper(), base.lower(), base + ' ' + base, 'zz' + base,
                        base.replace(' ', '')]).strip()
        if u in counts:
            continue
        ids = s.encode(u)
        ctx.check(len(ids) == 1 and not 0 <= ids[0] < len(labels), 'unseen label gets the id of a label', label=u, ids=ids,
                  labels=labels[:50])
        ctx.count('unseen')
    ctx.sig(labels)
    if ctx.i < 4:
        ctx.sample(dict(labels=labels[:8], n=len(labels)))
