"""C05 stochastic splits and permutations"""
import math
import random
from collections import Counter
from mon import gen, build, oracle

CASES = dict(quick=21000, thorough=90000)
RULE = ('case = bpe vocabulary x lines x split ratios (0, 1, and between) x seeds of the generator: each deterministic piece is '
        'replaced by one of its derivations; permutations compared with an enumeration; every 8th case tests the split frequency '
        'against the ratio (6.5 sigma); distinct = distinct (line, split result)')
NEED = dict(splits=3000, pieces_split=1000, permutations=1000, ratio_tests=20, fine_ratio_tests=20, leaves=300, chains=50, deep_types=10, long_lines=30, deep_permutations=2000)


def leaves(t):
    res, todo = [], [t]
    while todo:
        t = todo.pop()
        if t.kids:
            todo += [t.kids[1], t.kids[0]]
        else:
            res.append(t.idx)
    return res


def aligned(table, det, sto):
    """may sto be obtained from det by replacing each piece with one of its derivations?
    There is no choice: the first piece of a derivation of a part of a type is shorter than the type"""
    todo = [table[i] for i in reversed(det)]
    i = 0
    while todo:
        t = todo.pop()
        if i < len(sto) and sto[i] == t.idx:
            i += 1
        elif t.kids:
            todo += [t.kids[1], t.kids[0]]
        else:
            return False
    return i == len(sto)


class Table(list):
    chain = True


def chain_table(rng, chars, depth=None):
    """each type is the one before and a character, at one side: deep, but with as many derivations as the depth"""
    from nlcodec import Type, Level, Reseved
    table = Table(Reseved.with_reserved_types())
    for c in chars:
        table.append(Type(c, level=Level.char, idx=len(table), freq=1))
    base = table[6:]
    t = rng.choice(base)
    left = rng.random() < 0.5
    names = set(x.name for x in table)
    if depth and not left:  # the trie is as big as the square of the depth, if the names do not share the prefixes
        base = [t]
    for _ in range(depth or rng.choice([3, 10, 20, 60])):
        kids = (t, rng.choice(base)) if left else (rng.choice(base), t)
        t = Type(kids[0].name + kids[1].name, level=Level.subword, idx=len(table), freq=1, kids=kids)
        table.append(t)
        names.add(t.name)
    return table


def deep(ctx):
    """types composed in more levels than the stack of the interpreter may have"""
    from nlcodec import BPEScheme
    rng = ctx.rng
    table = chain_table(rng, gen.alphabet(rng, kinds=['ab', 'abc', 'a', 'deva'], maxn=5), depth=rng.choice([900, 1100, 1500, 2500]))
    names = [t.name for t in table]
    unique = len(set(names)) == len(names)
    s = BPEScheme(table)
    top = table[-1]
    for _ in range(6):
        line = top.name if rng.random() < 0.4 else rng.choice([table[rng.randrange(len(table) // 2, len(table))].name, gen.text_of_pieces(rng, table, maxn=4)])
        det = s.encode(line)
        ratio = rng.choice([0, 1, 1, 0.99, 0.999, 0.9995, 0.5])
        sto = s.encode(line, split_ratio=ratio)
        ctx.equal(''.join(names[i] for i in sto), ''.join(names[i] for i in det), 'stochastic split changes the text', line=line[:50], ratio=ratio, levels=len(table))
        if unique:
            ctx.check(aligned(table, det, sto), 'stochastic encoding is not made of derivations of the pieces', line=line[:50], ratio=ratio, levels=len(table))
            if ratio == 0:
                ctx.equal(list(sto), list(det), 'ratio 0 is not the deterministic encoding', line=line[:50])
            if ratio == 1:
                ctx.equal(list(sto), [x for i in det for x in leaves(table[i])], 'ratio 1 does not go down to the leaves', line=line[:50])
        ctx.sig(line, sto)
        ctx.count('pieces_split', len(sto) - len(det))
    # a chain has as many derivations as levels
    levels, t = 1, top
    while t.kids:
        levels, t = levels + 1, t.kids[0] if t.kids[0].kids or not t.kids[1].kids else t.kids[1]
    if levels < 1300:
        name = rng.random() < 0.5
        got = set(tuple(x) for x in top.get_permutations(name=name))
        ctx.check(len(got) == levels, 'permutations of a deep type are not as many as its levels', got=len(got), levels=levels)
        if name:
            ctx.check(all(''.join(x) == top.name for x in got), 'permutation does not spell the type', levels=levels)
        else:
            ctx.check(all(aligned(table, [top.idx], x) for x in got), 'permutations are not the derivations', levels=levels)
        ctx.count('deep_permutations', len(got))
    ctx.count('deep_types')


def case(ctx):
    from nlcodec import BPEScheme
    rng = ctx.rng
    if ctx.i % 600 == 17:
        return deep(ctx)
    chars = gen.alphabet(rng, kinds=['ab', 'abc', 'ascii', 'deva', 'a', 'emoji'], maxn=8)
    if rng.random() < 0.15:
        table = chain_table(rng, chars)
        s = BPEScheme(table)
        ctx.count('chains')
    elif rng.random() < 0.7:
        table = gen.bpe_table(rng, chars=chars, dup=False)
        s = BPEScheme(table)
    else:
        s = build.learn(rng, 'bpe', gen.corpus(rng, chars=chars, reserved=False, big=0))
        table = s.table
    names = [t.name for t in table]
    unique = len(set(names)) == len(names)
    for k in range(8):
        line = gen.text_of_pieces(rng, table, extra=['x', 'Я'])
        if ctx.i % 200 == 31 and k == 0:
            line = ' '.join(gen.text_of_pieces(rng, table, extra=['x']) for _ in range(rng.choice([100, 400, 1000])))
            ctx.count('long_lines')
        det = s.encode(line)
        detp = s.encode_str(line)
        ratio = rng.choice([0, 0.0, 1, 1.0, 0.1, 0.5, 0.9, rng.random(), 0.01])
        st = rng.random()
        random.seed(st)
        sto = s.encode(line, split_ratio=ratio)
        random.seed(st)
        stop = s.encode_str(line, split_ratio=ratio)
        # ids are the first ones of their names, so ask for the names where names are not unique
        ctx.equal([names[i] for i in sto], list(stop), 'stochastic encode and encode_str disagree under the same seed', line=line)
        spelled = ''.join(stop)
        ctx.equal(spelled, ''.join(detp), 'stochastic split changes the text', line=line, ratio=ratio)
        if unique:
            ctx.check(aligned(table, det, sto), 'stochastic encoding is not made of derivations of the pieces', line=line,
                      det=det, sto=sto, ratio=ratio)
            if ratio == 0:
                ctx.equal(list(sto), list(det), 'ratio 0 is not the deterministic encoding', line=line)
            if ratio == 1:
                ctx.equal(list(sto), [x for i in det for x in leaves(table[i])], 'ratio 1 does not go down to the leaves', line=line)
                ctx.count('leaves', len(sto))
        random.seed(st)
        seq = [rng.randrange(len(table)) for _ in range(5)]
        for name in (False, True):
            random.seed(st)
            got = s.stochastic_split(list(seq), split_ratio=ratio, name=name)
            ctx.equal(''.join(got if name else [names[i] for i in got]), ''.join(names[i] for i in seq),
                      'stochastic_split changes the text', seq=seq, ratio=ratio, name=name)
        ctx.count('splits')
        ctx.count('pieces_split', len(sto) - len(det))
        if len(det):
            ctx.sig(line, sto)
    small = [t for t in table if len(t.name) <= 9]
    if len(table) - len(chars) > 6 and getattr(table, 'chain', False):
        small = [t for t in table if t.kids]
    for t in rng.sample(small, min(len(small), 6)):
        want = oracle.derivations(t)
        got = Counter(tuple(x) for x in t.get_permutations())
        ctx.equal(set(got), set(want), 'permutations are not the derivations', type=t.signature())
        ctx.check(sum(got.values()) == sum(want.values()), 'permutations are repeated', type=t.signature())
        gotn = Counter(tuple(x) for x in t.get_permutations(name=True))
        wantn = Counter()
        for k, v in want.items():
            wantn[tuple(names[i] for i in k)] += v
        ctx.equal(set(gotn), set(wantn), 'permutations by name are not the derivations', type=t.signature())
        ctx.check(all(''.join(k) == t.name for k in gotn), 'permutation does not spell the type', type=t.signature())
        ctx.count('permutations', sum(got.values()))
    if ctx.i % 8 == 0:
        comp = [t for t in table if t.kids]
        if comp:
            t = rng.choice(comp)
            p = rng.choice([0.1, 0.25, 0.5, 0.75, 0.9])
            n = 1500
            if ctx.i % 64 == 0:  # near the ends, with enough draws to see it
                p, n = rng.choice([0.0001, 0.001, 0.002, 0.004, 0.01, 0.03, 0.33, 0.97, 0.99, 0.996, 0.999, 0.9999]), 20000
                ctx.count('fine_ratio_tests')
            random.seed(rng.random())
            k = sum(1 for _ in range(n) if list(t.get_stochastic_split(split_ratio=p)) != [t.idx])
            sd = math.sqrt(n * p * (1 - p))
            ctx.check(abs(k - n * p) <= 6.5 * sd + 4, 'types are not split with the probability asked for', ratio=p, n=n, split=k)
            ctx.count('ratio_tests')
            # the pieces are split in turn with the same probability, independently
            two = [x for x in comp if x.kids[0].kids]
            if two:
                t = rng.choice(two)
                k = n1 = 0
                for _ in range(n):
                    r = list(t.get_stochastic_split(split_ratio=p))
                    if r != [t.idx]:
                        n1 += 1
                        if r[0] != t.kids[0].idx:
                            k += 1
                if n1:
                    ctx.check(abs(k - n1 * p) <= 6.5 * math.sqrt(n1 * p * (1 - p)) + 4,
                              'sub-pieces are not split with the probability asked for', ratio=p, n=n1, split=k)
    if ctx.i < 4:
        ctx.sample(dict(line=line, det=detp[:20], ratio=ratio, sto=stop[:30]))
