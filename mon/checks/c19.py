"""C19 Spark word counts and nlcodec-learn"""
import argparse
import gzip
import subprocess
import sys
from collections import Counter
from mon import core, gen, oracle, sparkit

CASES = dict(quick=90, thorough=800)
SHARDS = 3
MEM_LIMIT_GB = 0
IDLE_LIMIT = 150
GRACE = 300
RULE = ('case = 1-4 files (plain or gz, LF or CRLF, with or without the last newline, empty lines, whole empty files, names that look like patterns or hidden files, lines repeated within and '
        'across files and up to whitespace) x split size of Spark (whole file, or every 40..400 bytes) x dedup; counts compared with python; then '
        'nlcodec-learn (in this process or as a command) twice at the same path, so that the statistics are reused, in some after a run that failed '
        'while it wrote the statistics; distinct = distinct counts')
NEED = dict(word_counts=60, splits=30, dups_dropped=200, multi_file=30, learns=40, reused=20, commands=2, term_freq_tool=5, huge=1, odd_names=15, interrupted=8)
ASSUMPTIONS = ['UTF-8 files without a byte order mark', 'lines end with LF or CRLF', 'at least one line in all the files']


def setup_worker(tier, seed, shard):
    sparkit.session()


def teardown_worker():
    sparkit.close()


# pairs with the same CRC-32, Java hash, Murmur-like sums of code points, or the same words or letters
COLLIDE = ['plumless', 'buckeroo', 'codding', 'gnu', 'Aa', 'BB', 'AaAa', 'BBBB', 'AaBB', 'a b', 'b a', 'ab', 'ba', 'ad', 'bc', 'a  b', 'a b ', ' a b',
           'A b', 'a\u0301', '\u00e1', 'x\x00', 'x', 'x\x00\x00']


def odd_name(ctx, rng, k):
    (ctx.tmp / 'f9').write_text('decoy\n' * 3)
    (ctx.tmp / f'f{k}9.txt').write_text('decoy\n' * 2)
    ctx.count('odd_names')
    return rng.choice([f'_f{k}.txt', f'.f{k}', f'_f{k}.txt.gz', f'f{k}*', f'f{k}?.txt', f'f{k}[0-9].txt', f'f{k}{{9,8}}.txt', f'f{k}\\9.txt', f'f {k}.txt',
                       f'f%20{k}', f'f,{k}.txt', f'f#{k}', f'f{k}._COPYING_', f'_f={k}', f'[!x]{k}', f'*{k}.gz'])


def make_files(ctx, rng):
    chars = gen.alphabet(rng)
    base = [''.join(c for c in l if c not in '\r\n\ufeff') for l in gen.corpus(rng, chars=chars, n_lines=rng.choice([1, 5, 20, 80]))] or ['a']
    base += rng.choice([[], ['', ' ', ''], ['<! S !>', '<!S!>'], ['# x', '#{"a": 1}'], ['<s> </s> <unk>', '\u2581'], COLLIDE])
    files, paths = [], []
    huge = ctx.i % 29 == 11
    ctx.count('huge', huge)
    for k in range(rng.choice([1, 1, 2, 3, 4])):
        n = rng.choice([0, 1, 3, 30]) if k else rng.choice([1, 3, 30, 100])
        if huge:
            n = rng.choice([1100, 12000])
        lines = [rng.choice(base) if rng.random() < 0.8 else rng.choice(base) + rng.choice([' ', '  z', '']) for _ in range(n)]
        nl = rng.choice(['\n', '\n', '\r\n'])
        text = nl.join(lines) + (nl if lines and (rng.random() < 0.8 or not lines[-1]) else '')
        name = rng.choice([f'f{k}.txt', f'f{k}', f'f{k}.tsv', f'f{k}.txt.gz'])
        if rng.random() < 0.25:  # names that mean something else to Spark: patterns, and hidden files
            name = odd_name(ctx, rng, k)
        p = ctx.tmp / name
        data = text.encode('utf8')
        p.write_bytes(gzip.compress(data) if name.endswith('.gz') else data)
        files.append(lines)
        paths.append(p)
    return files, paths


def expected(files, dedup):
    lines = [l for f in files for l in f]
    n = len(lines)
    if dedup:
        lines = list(dict.fromkeys(lines))
    words = Counter(w for l in lines for w in l.split())
    chars = Counter()
    for w, f in words.items():
        for c in w:
            chars[c] += f
    return words, chars, len(lines), n - len(lines)


def read_listing(path):
    txt = gzip.open(path, 'rt', encoding='utf8', newline='\n').read() if path.suffix == '.gz' else path.read_bytes().decode('utf8')
    return Counter({r.rsplit('\t', 1)[0]: int(r.rsplit('\t', 1)[1]) for r in txt.split('\n')[1:-1]})


class interrupted:
    """the k-th write into a gz file fails, once"""

    def __init__(self, k, error):
        self.left, self.error, self.hit = k, error, False

    def __enter__(self):
        self.real = gzip.GzipFile.write

        def write(f, data):
            self.left -= 1
            if self.left == 0:
                self.hit = True
                raise self.error
            return self.real(f, data)
        gzip.GzipFile.write = write
        return self

    def __exit__(self, *a):
        gzip.GzipFile.write = self.real


def case(ctx):
    from nlcodec import load_scheme
    from nlcodec import term_freq, learn
    rng = ctx.rng
    files, paths = make_files(ctx, rng)
    dedup = rng.random() < 0.5
    split = rng.choice([None, None, 40, 100, 400])
    if split and ctx.i % 29 == 11:
        split = sum(p.stat().st_size for p in paths) // 7
    spark = sparkit.session(**{'spark.sql.files.maxPartitionBytes': split or '134217728', 'spark.sql.files.openCostInBytes': 4 if split else 4194304})
    words, chars, n_lines, dropped = expected(files, dedup)
    info = dict(files=[f[:20] for f in files], names=[p.name for p in paths], dedup=dedup, split=split)
    with sparkit.kept():
        kw = {} if dedup and rng.random() < 0.5 else dict(dedup=dedup)
        if rng.random() < 0.7:
            kw['spark'] = spark
        gw, gc, gn = term_freq.word_counts(paths, **kw)
    ctx.equal(dict(gw), dict(words), 'word counts are not exact', **info)
    ctx.equal(dict(gc), dict(chars), 'character counts are not exact', **info)
    ctx.check(int(gn) == n_lines, 'line count is not exact', got=gn, want=n_lines, **info)
    ctx.count('word_counts')
    ctx.count('splits', split is not None)
    ctx.count('dups_dropped', dropped)
    ctx.count('multi_file', len(files) > 1)
    ctx.sig(sorted(words.items()), n_lines)
    if ctx.i < 4:
        ctx.sample(dict(info, words=len(words), lines=n_lines))
    if rng.random() < 0.2 and words:
        wf, cf = ctx.tmp / 'wf.tsv', ctx.tmp / 'cf.tsv'
        with sparkit.kept(), wf.open('w', encoding='utf8', newline='\n') as w, cf.open('w', encoding='utf8', newline='\n') as c:
            term_freq.main(argparse.Namespace(inp=paths, word_freqs=w, char_freqs=c, dedup=dedup))
        ctx.equal(read_listing(wf), words, 'word listing of the tool is not exact', **info)
        ctx.equal(read_listing(cf), chars, 'character listing of the tool is not exact', **info)
        ctx.count('term_freq_tool')
    if not words or rng.random() < 0.3:
        return
    # nlcodec-learn
    model = ctx.tmp / rng.choice(['model', 'my.model'])
    dedup = rng.random() < 0.5
    words, chars, n_lines, _ = expected(files, dedup)
    command = ctx.i % 30 == 7
    steps = [0, 1]
    if not command and rng.random() < 0.4:  # a run that does not get to its end comes first
        steps = ['interrupted'] + steps
    for step in steps:
        level = rng.choice(['word', 'char', 'bpe', 'word', 'char', 'bpe', 'class', 'byte'])
        nb = 8 + len(chars)
        vs = rng.choice([-1, 8, 30]) if level != 'bpe' else rng.choice([0, nb + 10, nb + 200])
        mf = rng.choice([None, 1, 2])
        cov = rng.choice([None, 1.0, 0.9])
        mce = rng.choice([None, 2, 4])
        argv = ['-i', *map(str, paths), '-m', str(model), '-l', level, '-vs', str(vs)]
        argv += ['-mf', str(mf)] if mf else []
        argv += ['-cv', str(cov)] if cov else []
        argv += ['-mce', str(mce)] if mce else []
        argv += ['--dedup'] if dedup else rng.choice([[], ['--no-dedup']])
        if command:
            argv += ['-spark', 'local[2]', '-dm', '1g']
            r = subprocess.run([sys.executable, '-m', 'nlcodec.learn'] + argv, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if r.returncode:
                ctx.check(False, 'nlcodec-learn fails', stderr=r.stderr.decode('utf8', 'replace')[-2000:], argv=argv)
            ctx.count('commands')
        else:
            old = sys.argv
            try:
                sys.argv = ['nlcodec-learn'] + argv
                with sparkit.kept():
                    if step == 'interrupted':
                        with interrupted(rng.choice([1, 2, 1, 2, 3, 4]), rng.choice([KeyboardInterrupt(), OSError(28, 'No space left on device'), MemoryError()])) as inj:
                            try:
                                learn.main()
                            except BaseException as e:
                                if e is not inj.error:
                                    raise
                            ctx.count('interrupted', inj.hit)
                        continue
                    learn.main()
            finally:
                sys.argv = old
        from nlcodec import DEF_CHAR_COVERAGE, DEF_MIN_CO_EV, DEF_WORD_MIN_FREQ, DEF_CHAR_MIN_FREQ
        table = load_scheme(model).table
        linfo = dict(info, argv=argv, run=step)
        cov = cov or DEF_CHAR_COVERAGE
        if level == 'class':  # here the labels are words
            want = [(t, i, words[t]) for i, t in enumerate(sorted(words))]
            ctx.equal([(t.name, t.idx, t.freq) for t in table], want, 'classes learned by nlcodec-learn are not the words in the files', **linfo)
            ctx.count('class_learns')
        elif level == 'byte':
            ctx.equal([t.name for t in table], ['%x' % i for i in range(256)] + ['<s>', '</s>'], 'wrong byte vocabulary', **linfo)
        elif level == 'bpe':
            oracle.verify_bpe(ctx, table, words, n_lines, cov, vs, mce or DEF_MIN_CO_EV, **linfo)
        else:
            oracle.VocabCheck(words if level == 'word' else chars, n_lines, coverage=cov if level == 'char' else 0,
                              min_freq=mf or (DEF_WORD_MIN_FREQ if level == 'word' else DEF_CHAR_MIN_FREQ),
                              vocab_size=vs).verify(ctx, table, level=2 if level == 'word' else 0, **linfo)
        ctx.count('learns')
        ctx.count('reused', step == 1)
