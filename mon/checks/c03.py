"""C03 ids and pieces agree; no memory between the calls"""
import copy
import pickle
import random
import sys
import threading
from mon import gen, build, oracle
from mon.checks.c01 import test_lines

CASES = dict(quick=7200, thorough=30000)
RULE = ('case = 2-4 live schemes of mixed kinds and a random history of 25-80 calls (encode, encode_str, decode, decode_str, '
        'split, generators, construction of another object, copying and pickling, parallel in some; four threads at once in others) with repeated lines; each answer is compared with the answer '
        'of a fresh scheme; distinct = distinct (kind, line, ids)')
NEED = dict(calls=10000, repeated=2000, generator_calls=500, parallel_calls=5, split_calls=300, threaded_calls=5000, copies=500, long_copies=20)


def threads(ctx, schemes):
    """several threads use the same schemes at once, with switches at almost every byte code"""
    jobs = []
    for level, s, lines, rows, memo in schemes:
        for line in lines:
            ids, pcs = list(s.encode(line)), list(s.encode_str(line))
            txt = s.decode(ids) if all(i >= 0 for i in ids) else None
            jobs.append((level, s, line[:300], ids, pcs, txt) if len(line) <= 300 else None)
    jobs = [j for j in jobs if j]
    if not jobs:
        return
    bad, done = [], [0] * 4

    def work(k, order):
        try:
            for level, s, line, ids, pcs, txt in order:
                got = list(s.encode(line)), list(s.encode_str(line)), None if txt is None else s.decode(list(ids))
                if got != (ids, pcs, txt):
                    bad.append((level, line, got, (ids, pcs, txt)))
                    return
                done[k] += 1
        except BaseException as e:
            bad.append((level, line, repr(e), None))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(k, [ctx.rng.choice(jobs) for _ in range(40)]), daemon=True) for k in range(4)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    ctx.count('threaded_calls', sum(done))
    if bad:
        level, line, got, want = bad[0]
        ctx.check(False, f'{level}: encoding in several threads at once gives another result', line=line, got=repr(got)[:500], want=repr(want)[:500])


def case(ctx):
    from nlcodec import encode, decode, BPEScheme
    rng = ctx.rng
    schemes = []
    for _ in range(rng.randint(2, 4)):
        level = rng.choice(['word', 'char', 'bpe', 'bpe', 'class', 'byte'])
        chars = gen.alphabet(rng)
        s, lines = build.some_scheme(rng, level, chars=chars)
        if level == 'bpe' and rng.random() < 0.05:  # entries longer than the stack of the interpreter is deep
            s = BPEScheme(gen.bpe_table(rng, chars=chars[:6], n_merges=rng.choice([15, 25]), long=True))
            lines = lines[:5] + [rng.choice(s.table[5:]).name for _ in range(3)] + [max((t.name for t in s.table), key=len) + 'a']
        rows = oracle.table_rows(s.table)
        schemes.append((level, s, test_lines(rng, lines, chars, 5), rows, {}))
    parallel_at = rng.randint(0, 40) if ctx.i % 25 == 0 else -1
    for step in range(40 if not ctx.thorough else 80):
        level, s, lines, rows, memo = rng.choice(schemes)
        line = rng.choice(lines)
        op = rng.choice(['encode', 'encode', 'encode_str', 'decode', 'gen', 'split', 'twin', 'copy'])
        names = [r[1] for r in rows]
        if line not in memo:
            # reference answer from a fresh object made of a copy of the table
            twin = type(s)(list(s.table))
            memo[line] = (list(twin.encode_str(line)), list(twin.encode(line)))
            first = {}
            for i, n in enumerate(names):
                first.setdefault(n, i)
            pcs, ids = memo[line]
            unk = {'class': -1}.get(level, 1)
            ctx.equal(ids, [first.get(p, unk) for p in pcs], f'{level}: ids are not the ids of the pieces', line=line, pieces=pcs)
            ctx.check(all(0 <= i < len(names) or (level == 'class' and i == -1) for i in ids), 'id out of range', ids=ids)
            ctx.sig(level, line, ids)
        else:
            ctx.count('repeated')
        pcs, ids = memo[line]
        ctx.count('calls')
        if step == parallel_at:
            ctx.count('parallel_calls')
            ctx.equal([list(x) for x in s.encode_parallel(list(lines), n_cpus=2)], [list(s.encode(l)) for l in lines],
                      f'{level}: parallel encoding differs')
        if op == 'encode':
            got = s.encode(line)
            ctx.equal(list(got), ids, f'{level}: encode() is not the same as of a fresh scheme', line=line, step=step)
            if rng.random() < 0.5:  # the caller owns the result
                got.append(0)
                got.reverse()
        elif op == 'encode_str':
            got = s.encode_str(line)
            ctx.equal(list(got), pcs, f'{level}: encode_str() is not the same as of a fresh scheme', line=line, step=step)
            if rng.random() < 0.5:
                got.append('x')
        elif op == 'decode':
            if all(i >= 0 for i in ids):
                arg = list(ids)
                a = s.decode(arg)
                ctx.equal(arg, ids, 'decode changed its argument')
                b = s.decode_str([names[i] for i in ids])
                ctx.equal(a, b, f'{level}: decode(ids) is not decode_str(pieces)', ids=ids)
                ctx.equal(s.decode(tuple(ids)), a, f'{level}: decode is not repeatable')
        elif op == 'gen':
            sub = [rng.choice(lines) for _ in range(rng.randint(0, 4))]
            ctx.equal([list(x) for x in encode(iter(sub), s, indices=True)], [list(s.encode(l)) for l in sub],
                      f'{level}: encode() generator (ids) differs from the method')
            ctx.equal([list(x) for x in encode(sub, s, indices=False)], [list(s.encode_str(l)) for l in sub],
                      f'{level}: encode() generator (pieces) differs from the method')
            enc = [[i for i in s.encode(l) if i >= 0] for l in sub]
            txt = [' '.join(map(str, e)) for e in enc]
            ctx.equal(list(decode(iter(txt), s, indices=True)), [s.decode(e) for e in enc],
                      f'{level}: decode() generator (ids) differs from the method')
            if level != 'class':
                pc = [[names[i] for i in e] for e in enc]
                txt = [' '.join(p) for p in pc]
                ctx.equal(list(decode(iter(txt), s, indices=False)), [s.decode_str(p) for p in pc],
                          f'{level}: decode() generator (pieces) differs from the method')
            ctx.count('generator_calls')
        elif op == 'split' and level == 'bpe':
            random.seed(rng.random())
            s.encode(line, split_ratio=rng.choice([0.1, 0.5, 1.0]))
            t = rng.choice(s.table)
            if len(t.name) < 10:  # their number grows exponentially
                t.get_permutations()
            ctx.count('split_calls')
        elif op == 'copy':
            how = rng.choice(['pickle', 'deepcopy', 'copy', 'pickle2'])
            other = pickle.loads(pickle.dumps(s, protocol=2 if how == 'pickle2' else None)) if how.startswith('pickle') else getattr(copy, how)(s)
            ctx.equal(list(other.encode(line)), ids, f'{level}: a copy of a scheme differs', how=how, line=line)
            ctx.equal(list(other.encode_str(line)), pcs, f'{level}: a copy of a scheme gives other pieces', how=how, line=line)
            ctx.equal(oracle.table_rows(other.table), rows, f'{level}: a copy of a scheme has another table', how=how)
            ctx.equal(list(s.encode(line)), ids, f'{level}: copying a scheme changes it', how=how, line=line)
            if all(i >= 0 for i in ids):
                ctx.equal(other.decode(list(ids)), s.decode(list(ids)), f'{level}: a copy of a scheme decodes to another text', how=how, ids=ids)
            if level == 'bpe':
                st = rng.random()
                random.seed(st)
                a = list(s.encode(line, split_ratio=0.5))
                random.seed(st)
                ctx.equal(list(other.encode(line, split_ratio=0.5)), a, 'bpe: a copy splits differently under the same seed', how=how, line=line)
                if max(len(r[1]) for r in rows) > 1200:
                    ctx.count('long_copies')
            ctx.count('copies')
            if rng.random() < 0.3:  # the history goes on with the copy
                k = next(k for k, x in enumerate(schemes) if x[1] is s)
                schemes[k] = (level, other, lines, rows, memo)
        elif op == 'twin':
            twin = type(s)(list(s.table))
            ctx.equal(list(twin.encode(line)), ids, f'{level}: another scheme object with the same table differs', line=line)
    if ctx.i % 4 == 2:
        threads(ctx, schemes)
    for level, s, lines, rows, memo in schemes:
        ctx.equal(oracle.table_rows(s.table), rows, f'{level}: calls changed the vocabulary table')
        ctx.equal(len(s), len(rows), f'{level}: size changed')
        for line, (pcs, ids) in memo.items():
            ctx.equal(list(s.encode(line)), ids, f'{level}: encode() changed after the history', line=line)
    if ctx.i < 4:
        ctx.sample(dict(kinds=[x[0] for x in schemes], line=line, ids=ids[:20]))
