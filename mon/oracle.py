"""Reference models: written from the documentation, independent of the code under test, slow and simple"""
from collections import Counter
from fractions import Fraction

SP = '▁'
RES = ['<pad>', '<unk>', '<s>', '</s>', '<cls>', SP]
UNK = 1


def norm(line):
    return ' '.join(line.split())


# ------------------------------------------------------------- bpe

def greedy(names, text):
    """longest-match pieces of the text; None for an unknown character"""
    names = names if isinstance(names, set) else set(names)
    mx = max(map(len, names))
    res, i = [], 0
    lens = sorted({len(n) for n in names}, reverse=True)
    while i < len(text):
        for n in lens:
            if n <= len(text) - i and text[i:i + n] in names:
                res.append(text[i:i + n])
                i += n
                break
        else:
            res.append(None)
            i += 1
    return res


def marked(line):
    return SP.join(line.split()) + SP


def derivations(typ):
    """multiset of all derivations of a type, as tuples of (idx)"""
    memo = {}

    def rec(t):
        if t.idx in memo:
            return memo[t.idx]
        res = Counter({(t.idx,): 1})
        if t.kids:
            l, r = t.kids
            for x, cx in rec(l).items():
                for y, cy in rec(r).items():
                    res[x + y] += cx * cy
        memo[t.idx] = res
        return res
    return rec(typ)


def is_derivation(table, idx, seq):
    """may the type idx be split to the seq? :return number of items consumed possibilities; exact match"""
    def ends(t, i):
        res = set()
        if i < len(seq) and seq[i] == t.idx:
            res.add(i + 1)
        if t.kids:
            for m in ends(t.kids[0], i):
                res |= ends(t.kids[1], m)
        return res
    return len(seq) in ends(table[idx], 0)


# ------------------------------------------------------------- vocab selection

class VocabCheck:
    """decides if a table is a right selection of types for the counts given. Ties may go any way."""

    def __init__(self, counts, line_count, coverage=0, min_freq=None, vocab_size=-1):
        self.corpus = dict(counts)
        self.inres = {n: self.corpus.pop(n) for n in RES if n in self.corpus}
        self.line_count = line_count
        self.coverage, self.min_freq, self.vocab_size = coverage, min_freq, vocab_size

    def cut_sizes(self):
        """possible numbers of types kept after all three cuts; more than one in the case of
        floating point doubt at the coverage boundary"""
        fs = sorted(self.corpus.values(), reverse=True)
        tot = sum(fs)
        sizes = {len(fs)}
        if self.coverage and fs:
            cov = Fraction(self.coverage)
            sizes = set()
            cum = 0
            # with a power of two as the total, floating point is exact and there is no doubt; else the part and the coverage are
            # rounded once
            eps = 0 if tot & (tot - 1) == 0 or cov == 1 else Fraction(1, 2 ** 51)
            for k, f in enumerate(fs, 1):
                cum += f
                part = Fraction(cum, tot)
                if part >= cov - eps:
                    sizes.add(k)
                if part >= cov + eps:
                    break
            else:
                sizes.add(len(fs))
        if self.min_freq and self.min_freq > 1:
            n = sum(1 for f in fs if f >= self.min_freq)
            sizes = {min(k, n) for k in sizes}
        if self.vocab_size and self.vocab_size > 0:
            n = max(0, self.vocab_size - len(RES))
            sizes = {min(k, n) for k in sizes}
        return sizes

    def verify(self, ctx, table, level, init_only=None, **info):
        """:param init_only: number of leading types to verify (bpe: the alphabet)"""
        types = table if init_only is None else table[:init_only]
        ctx.check(len(types) >= len(RES), 'reserved types are missing', n=len(types), **info)
        ctx.equal([t.name for t in types[:6]], RES, 'reserved types are not at their ids', **info)
        ctx.equal([t.idx for t in types], list(range(len(types))), 'ids are not dense', **info)
        ctx.check(all(t.level == -1 for t in types[:6]), 'reserved level is changed', **info)
        body = types[6:]
        names = [t.name for t in body]
        ctx.equal(len(set(names)), len(names), 'a type is there twice', **info)
        ctx.check(all(t.level == level for t in body), 'level of types is not right', **info)
        for t in body:
            ctx.check(self.corpus.get(t.name) == t.freq, 'frequency of a type is not its count in corpus',
                      type=t.name, freq=t.freq, want=self.corpus.get(t.name), **info)
        fr = [t.freq for t in body]
        ctx.check(fr == sorted(fr, reverse=True), 'types are not in the order of frequency', freqs=fr[:50], **info)
        sizes = self.cut_sizes()
        ctx.check(len(body) in sizes, 'wrong number of types is kept', kept=len(body), want=sorted(sizes),
                  n_types=len(self.corpus), coverage=self.coverage, min_freq=self.min_freq,
                  vocab_size=self.vocab_size, **info)
        if body:
            names = set(names)
            rest = [f for n, f in self.corpus.items() if n not in names]
            ctx.check(not rest or max(rest) <= fr[-1], 'a more frequent type is dropped while a rarer one is kept',
                      dropped=max(rest, default=0), kept=fr[-1], **info)
        excluded = sum(self.corpus.values()) - sum(fr)
        for t in types[:6]:
            want = self.inres.get(t.name, 0)
            if t.idx == UNK:
                want += excluded
            if t.idx in (2, 3, 4) and self.line_count and self.line_count > 0:
                want += self.line_count
            ctx.check(t.freq == want or (want == 0 and t.freq in (-1, 0)),
                      'count credited to a reserved type is not right', type=t.name, freq=t.freq, want=want, **info)
        ctx.count('types_verified', len(types))


# ------------------------------------------------------------- bpe learning

def pair_counts(seqs):
    c = Counter()
    for seq, f in seqs:
        for p in zip(seq, seq[1:]):
            c[p] += f
    return c


def merge_seq(seq, a, b, new):
    res, i, n = [], 0, 0
    while i < len(seq):
        if i + 1 < len(seq) and seq[i] == a and seq[i + 1] == b:
            res.append(new)
            n += 1
            i += 2
        else:
            res.append(seq[i])
            i += 1
    return res, n


def run_len_nonoverlap(seqs, a):
    return sum(merge_seq(s, a, a, -1)[1] * f for s, f in seqs)


def verify_bpe(ctx, table, word_freqs, line_count, coverage, vocab_size, min_co_ev, **info):
    """replays the merges of the table over the corpus"""
    tfs = {w + SP: f for w, f in word_freqs.items()}
    chars = Counter()
    for w, f in tfs.items():
        for c in w:
            chars[c] += f
    n_init = next((i for i, t in enumerate(table) if t.level == 1), len(table))
    ctx.check(all(t.level == 1 for t in table[n_init:]), 'base types come after merged types', **info)
    ctx.check(all(not t.kids for t in table[:n_init]), 'base types have pieces', **info)
    ctx.equal([t.idx for t in table], list(range(len(table))), 'ids are not dense', **info)
    VocabCheck(chars, line_count, coverage=coverage, min_freq=1).verify(ctx, table, level=0, init_only=n_init, **info)
    idx = {t.name: t.idx for t in table[:n_init]}
    seqs = [[[idx[w]] if w in idx else [idx.get(c, UNK) for c in w], f] for w, f in tfs.items()]
    pc = pair_counts(seqs)
    where = {}
    for si, (s, f) in enumerate(seqs):
        for p in zip(s, s[1:]):
            where.setdefault(p, set()).add(si)
    for t in table[n_init:]:
        ctx.check(t.kids is not None and len(t.kids) == 2, 'merged type has no two pieces', type=t.name, **info)
        a, b = t.kids[0].idx, t.kids[1].idx
        ctx.check(a < t.idx and b < t.idx, 'pieces are not earlier types', type=t.signature(), **info)
        ctx.check(t.kids[0] == table[a] and t.kids[1] == table[b], 'pieces are not the types of table',
                  type=t.name, **info)
        ctx.equal(t.name, table[a].name + table[b].name, 'name is not the concatenation of pieces', **info)
        n = pc.get((a, b), 0)
        best, ties = 0, 0
        for c in pc.values():
            if c > best:
                best, ties = c, 1
            elif c == best:
                ties += 1
        ctx.check(n == best and n > 0, 'merged pair was not the most frequent one at its step', type=t.signature(),
                  step=t.idx - n_init, count=n, best=best,
                  best_pair=[(table[x].name, table[y].name) for (x, y), c in pc.items() if c == best][:3], **info)
        ctx.check(n >= min_co_ev, 'merge is below the minimum co-evidence', type=t.name, count=n, min_co_ev=min_co_ev,
                  **info)
        lo = n
        touched = where.get((a, b), set())
        if a == b:
            lo = run_len_nonoverlap([seqs[i] for i in touched], a)
        ctx.check(lo <= t.freq <= n, 'frequency of merged type is not the count of its pair', type=t.signature(),
                  freq=t.freq, want=(lo, n), **info)
        if a == b and lo != n:
            ctx.count('overlapping_merges')
        for si in list(touched):
            s, f = seqs[si]
            for p in zip(s, s[1:]):
                pc[p] -= f
                if not pc[p]:
                    del pc[p]
            s2, _ = merge_seq(s, a, b, t.idx)
            seqs[si][0] = s2
            for p in zip(s2, s2[1:]):
                pc[p] += f
                where.setdefault(p, set()).add(si)
        where.pop((a, b), None)
        # stale members of where are harmless: they are found to have no such pair
        if ties > 1:
            ctx.count('steps_with_ties')
        ctx.count('merges_replayed')
    best = max(pc.values(), default=0)
    if vocab_size and vocab_size > 0:
        ctx.check(len(table) <= vocab_size, 'more types than asked for', got=len(table), want=vocab_size, **info)
    if not (vocab_size and vocab_size > 0 and len(table) == vocab_size):
        ctx.check(best == 0 or best < min_co_ev, 'learning stopped too early', size=len(table),
                  vocab_size=vocab_size, best_pair_count=best, min_co_ev=min_co_ev, **info)
        ctx.count('stopped_for_evidence' if best else 'stopped_for_exhaustion')
    else:
        ctx.count('stopped_at_size')
    return n_init


def table_rows(table):
    return [(t.idx, t.name, t.level, t.freq, tuple(k.idx for k in t.kids) if t.kids else ()) for t in table]
