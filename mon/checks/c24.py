"""C24 OOV, n-gram, precision and recall tools"""
import contextlib
import io
import json
import subprocess
import sys
from collections import Counter, defaultdict
from fractions import Fraction
from mon import gen, build

CASES = dict(quick=12000, thorough=200000)
RULE = ('case = a codec x candidate and reference texts of 1-25 lines (unequal lengths, empty lines, repeats, unknowns) x n = 1..5; make_n_grams(_all), '
        'count_gram_recall, f1_measure, partition_vocab_toks and the main() of oov_count, termfreq and pr_measure (with and without precomputed '
        'frequencies) compared with a recount by rational numbers; one case in 200 uses the real process pool; one in 600 runs the tools as commands, with files or pipes; distinct = distinct texts and n')
NEED = dict(grams=50000, gram_rows=20000, oov_tokens=5000, iv_tokens=10000, clipped=2000, absent_in_cand=5000, with_freqs=300, pools=5, unequal=1000, commands=30)
ASSUMPTIONS = ['at least one token in the text of oov_count', 'printed numbers are compared to 6 digits']


def grams(seq, n):
    res = []
    i = 0
    while i + n <= len(seq):
        res.append(tuple(seq[i:i + n]))
        i += 1
    return res


def recall(cands, refs, n):
    rec, pre = defaultdict(list), defaultdict(list)
    rf, cf = Counter(), Counter()
    clipped = absent = 0
    for c, r in zip(cands, refs):
        C, R = Counter(grams(c, n)), Counter(grams(r, n))
        for g, f in R.items():
            m = min(f, C.get(g, 0))
            clipped += C.get(g, 0) > f
            absent += m == 0
            rec[g].append(Fraction(m, f))
            rf[g] += f
        for g, f in C.items():
            pre[g].append(Fraction(min(f, R.get(g, 0)), f))
            cf[g] += f
    avg = lambda d: {g: sum(v) / len(v) for g, v in d.items()}
    return avg(rec), rf, avg(pre), cf, clipped, absent


def close(a, b, tol=1e-9):
    return abs(float(a) - float(b)) <= tol


def same(ctx, got, want, msg, tol=1e-9, **kw):
    ctx.equal(sorted(got), sorted(want), msg + ': grams', **kw)
    for g, v in want.items():
        ctx.check(close(got[g], v, tol), msg, gram=g, got=float(got[g]), want=float(v), **kw)


def texts(rng, lines, chars):
    n = rng.choice([1, 2, 5, 25])
    if rng.random() < 0.001:
        n = rng.choice([300, 1500])
    refs = [rng.choice(lines) for _ in range(n)]
    cands = []
    for r in refs:
        x = rng.random()
        toks = r.split()
        if x < 0.2:
            cands.append(r)
        elif x < 0.5 and toks:
            for _ in range(rng.randint(1, 4)):
                k = rng.randrange(len(toks))
                if rng.random() < 0.4:
                    toks.insert(k, rng.choice(toks))
                elif rng.random() < 0.5:
                    toks[k] = rng.choice(rng.choice(lines).split() or ['q'])
                elif len(toks) > 1:
                    toks.pop(k)
            cands.append(' '.join(toks))
        elif x < 0.9:
            cands.append(rng.choice(lines))
        else:
            cands.append(rng.choice(['', 'ж ☂', gen.random_text(rng, chars)]))
    return cands, refs


def tool(name, argv, stdin=None):
    """runs the tool as a command"""
    r = subprocess.run([sys.executable, '-m', f'nlcodec.eval.{name}'] + [str(a) for a in argv], input=None if stdin is None else stdin.encode('utf8'),
                       stdin=subprocess.DEVNULL if stdin is None else None, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode:
        raise RuntimeError(f'{name} {argv} failed: {r.stderr.decode("utf8", "replace")[-1500:]}')
    return r.stdout.decode('utf8')


def commands(ctx, path, n, cands, refs, freqs, want_pr, want_tf, want_oov):
    """the commands print what the functions write"""
    rng = ctx.rng
    files = {}
    for k, lines in (('c', cands), ('r', refs)):
        files[k] = ctx.tmp / f'{k}.txt'
        files[k].write_bytes(''.join(l + '\n' for l in lines).encode('utf8'))
    out = ctx.tmp / 'out.txt'

    def run(name, argv, stdin, want, to_file=True):
        argv = list(argv)
        to_file = to_file and rng.random() < 0.5
        if to_file:
            argv += [rng.choice(['-o', '--out']), out]
        res = tool(name, argv, stdin)
        if to_file:
            ctx.equal(res, '', f'{name}: output on stdout although a file is given')
            res = out.read_bytes().decode('utf8')
        ctx.equal(res, want, f'the command {name} writes something else than the function', argv=[str(a) for a in argv], stdin=stdin is not None)
        ctx.count('commands')

    piped = rng.choice(['c', 'r', None])
    argv = [rng.choice(['-m', '--model']), path]
    if n != 1 or rng.random() < 0.5:
        argv += ['-n', n]
    pr = list(argv)
    if piped != 'c':
        pr += [rng.choice(['-c', '--cands']), files['c']]
    if piped != 'r':
        pr += [rng.choice(['-r', '--refs']), files['r']]
    if freqs is not None:
        f = ctx.tmp / 'freqs.txt'
        f.write_bytes(freqs.encode('utf8'))
        pr += [rng.choice(['-f', '--freqs']), f]
    run('pr_measure', pr, None if piped is None else files[piped].read_bytes().decode('utf8'), want_pr)
    text = files['r'].read_bytes().decode('utf8')
    if rng.random() < 0.5:
        run('termfreq', argv + ['-i', files['r']], None, want_tf)
    else:
        run('termfreq', argv, text, want_tf)
    if want_oov is not None:
        text = files['c'].read_bytes().decode('utf8')
        if rng.random() < 0.5:
            run('oov_count', argv[:2] + ['--inp', files['c']], None, want_oov, to_file=False)
        else:
            run('oov_count', argv[:2], text, want_oov, to_file=False)


def clean(line):
    return ' '.join(line.split())


def case(ctx):
    from nlcodec import WordScheme
    from nlcodec.utils import make_n_grams, make_n_grams_all
    from nlcodec.eval import oov_count, pr_measure, termfreq
    rng = ctx.rng
    chars = gen.alphabet(rng)
    level = rng.choice(['word', 'word', 'char', 'bpe'])
    lines = [clean(l) for l in gen.corpus(rng, chars=chars)] or ['x']
    codec, _ = build.some_scheme(rng, level, lines=lines, chars=chars)
    path = ctx.tmp / 'm'
    codec.save(path)
    cands, refs = texts(rng, lines, chars)
    cands = [clean(c) for c in cands]
    n = rng.choice([1, 1, 2, 3, 4, 5])
    pool = ctx.i % 200 == 7
    # functions on sequences
    kind = rng.choice(['ids', 'str', 'words'])
    if kind == 'ids':
        C, R = [list(codec.encode(l)) for l in cands], [list(codec.encode(l)) for l in refs]
    elif kind == 'str':
        C, R = cands, refs
    else:
        C, R = [l.split() for l in cands], [l.split() for l in refs]
    for s in R[:5]:
        ctx.equal(list(make_n_grams(s, n)), grams(s, n), 'make_n_grams does not give the n-grams', seq=s, n=n)
    want_all = Counter(g for s in R for g in grams(s, n))
    ctx.equal(dict(make_n_grams_all(iter(R), n)), dict(want_all), 'make_n_grams_all does not give the true frequencies', n=n)
    ctx.count('grams', sum(want_all.values()))
    wr, wrf, wp, wcf, clipped, absent = recall(C, R, n)
    gr, grf, gp, gcf = pr_measure.count_gram_recall(iter(C), iter(R), n=n)
    info = dict(cands=cands[:6], refs=refs[:6], n=n)
    same(ctx, gr, wr, 'recall of a gram is not the average of clipped matches', **info)
    same(ctx, gp, wp, 'precision of a gram is not the average of clipped matches', **info)
    ctx.equal(dict(grf), dict(wrf), 'frequencies of grams of references', **info)
    ctx.equal(dict(gcf), dict(wcf), 'frequencies of grams of candidates', **info)
    ctx.count('clipped', clipped)
    ctx.count('absent_in_cand', absent)
    ctx.count('unequal', any(len(c) != len(r) for c, r in zip(C, R)))
    for _ in range(5):
        p, r = rng.choice([0, 1, rng.random(), 1e-9]), rng.choice([0, 1, rng.random(), 1e-9])
        f = 2 * Fraction(p) * Fraction(r) / (Fraction(p) + Fraction(r)) if p + r else 0
        ctx.check(close(pr_measure.f1_measure(p, r), f), 'f1 is not the harmonic mean', p=p, r=r, got=float(pr_measure.f1_measure(p, r)))
    # oov
    voc = {t.name for t in codec.table} if level == 'word' else set(rng.sample(sorted(set(' '.join(lines).split())) or ['q'], 1))
    tf = Counter(t for l in cands for t in l.split())
    sep = rng.choice(['\n', '', ' \n'])
    iv, oov = oov_count.partition_vocab_toks(iter(l + sep for l in cands), voc)
    ctx.equal(dict(iv), {t: f for t, f in tf.items() if t in voc}, 'in-vocabulary tokens', **info)
    ctx.equal(dict(oov), {t: f for t, f in tf.items() if t not in voc}, 'out-of-vocabulary tokens', **info)
    ctx.count('iv_tokens', sum(iv.values()))
    ctx.count('oov_tokens', sum(oov.values()))
    want_oov = None
    if level == 'word' and tf:
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            oov_count.main(io.StringIO(''.join(l + '\n' for l in cands), newline='\n'), path)
        want_oov = out.getvalue()
        rows = [l.split('\t') for l in want_oov.splitlines()]
        tot = sum(tf.values())
        niv = sum(f for t, f in tf.items() if t in voc)
        tiv = sum(1 for t in tf if t in voc)
        ctx.equal(rows[1:3], [['Types', str(tiv), str(len(tf) - tiv)], ['Token Count', str(niv), str(tot - niv)]], 'oov_count prints other numbers', **info)
        for g, w in zip(rows[3][1:], (niv, tot - niv)):
            ctx.check(abs(float(g) - 100 * w / tot) <= 0.0051, 'oov_count prints other percentage', got=g, want=100 * w / tot)
    # tools
    saved = type(codec).encode_parallel

    def patched(mod):
        real = mod.load_scheme

        def load(p):
            s = real(p)
            s.encode_parallel = lambda seqs, **kw: map(s.encode, seqs)
            return s
        return real, load
    undo = []
    if not pool:
        for mod in (termfreq, pr_measure):
            real, load = patched(mod)
            undo.append((mod, real))
            mod.load_scheme = load
    else:
        ctx.count('pools')
    try:
        eR, eC = [list(codec.encode(l)) for l in refs], [list(codec.encode(l)) for l in cands]
        out = io.StringIO()
        termfreq.main(io.StringIO(''.join(l + '\n' for l in refs), newline='\n'), out, n, path)
        want_tf = out.getvalue()
        rows = [json.loads(l) for l in want_tf.split('\n')[:-1]]
        want = Counter(g for s in eR for g in grams(s, n))
        ctx.equal(sorted((tuple(g), f) for g, f, _ in rows), sorted(want.items()), 'termfreq does not list each gram once with its frequency', **info)
        ctx.check(all(a[1] >= b[1] for a, b in zip(rows, rows[1:])), 'termfreq is not in non-increasing frequency', rows=rows[:10])
        for g, f, names in rows:
            ctx.equal(names, [codec.table[i].name for i in g], 'termfreq: names of a gram')
        freqs = None
        fr = None
        if rng.random() < 0.4:
            other = [rng.choice(lines) for _ in range(rng.randint(1, 10))]
            fr = Counter(g for s in map(codec.encode, other) for g in grams(s, n))
            freqs = io.StringIO(''.join(json.dumps([list(g), f, [codec.table[i].name for i in g]]) + '\n' for g, f in fr.items()))
            ctx.count('with_freqs')
        out = io.StringIO()
        pr_measure.main(path, iter(l + '\n' for l in cands), iter(l + '\n' for l in refs), n, out, freqs=freqs)
        want_pr = out.getvalue()
    finally:
        for mod, real in undo:
            mod.load_scheme = real
    codec2 = type(codec)(codec.table)
    src = [rng.choice(['', ' ', '\t']) + l + rng.choice(['\n', '', ' \n']) for l in refs]
    ctx.equal([list(s) for s in termfreq.encode_all(iter(src), codec2)], eR, 'termfreq.encode_all gives other ids', **info)
    ctx.equal([list(s) for s in termfreq.encode_all(iter(src), codec2, index=False)], [list(codec.encode_str(l)) for l in refs],
              'termfreq.encode_all gives other pieces', **info)
    if ctx.i % 599 == 5:
        commands(ctx, path, n, cands, refs, freqs and freqs.getvalue(), want_pr, want_tf, want_oov)
    wr, wrf, wp, wcf, _, _ = recall(eC, eR, n)
    keys = set(wrf) | ({g for g in fr if g in wcf} if fr is not None else set())
    rows = [l.split('\t') for l in out.getvalue().split('\n')[:-1]]
    ctx.equal(rows[0], 'Rank Gram Name RankF RefF CandF Recall Precision F1'.split(), 'pr_measure: header')
    rows = rows[1:]
    got = [tuple(int(x) for x in r[1].split(',')) for r in rows]
    ctx.equal(sorted(got), sorted(keys), 'pr_measure does not list each gram once', **info)
    ctx.equal([r[0] for r in rows], [str(i + 1) for i in range(len(rows))], 'pr_measure: ranks')
    rank = [int(r[3]) for r in rows]
    ctx.check(all(a >= b for a, b in zip(rank, rank[1:])), 'pr_measure is not in non-increasing frequency', rank=rank[:20])
    for g, r in zip(got, rows):
        ctx.count('gram_rows')
        ctx.equal(r[2], ','.join(codec.table[i].name for i in g), 'pr_measure: names of a gram')
        ctx.equal(int(r[3]), wrf[g] if fr is None else fr.get(g, -1), 'pr_measure: frequency for rank', gram=g, **info)
        ctx.equal((int(r[4]), int(r[5])), (wrf.get(g, -1), wcf.get(g, -1)), 'pr_measure: frequencies in references and candidates', gram=g, **info)
        if g in wr:
            ctx.check(close(r[6], wr[g], 1e-5), 'pr_measure: recall', gram=g, got=r[6], want=float(wr[g]), **info)
        if g in wp:
            ctx.check(close(r[7], wp[g], 1e-5), 'pr_measure: precision', gram=g, got=r[7], want=float(wp[g]), **info)
        if g in wr and g in wp:
            f = 2 * wr[g] * wp[g] / (wr[g] + wp[g]) if wr[g] + wp[g] else 0
            ctx.check(close(r[8], f, 1e-5), 'pr_measure: F1', gram=g, got=r[8], want=float(f), **info)
    ctx.sig(cands, refs, n, level)
    if ctx.i < 4:
        ctx.sample(dict(n=n, scheme=level, cands=cands[:3], refs=refs[:3], rows=rows[:3]))
