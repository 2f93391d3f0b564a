"""C20 parallel corpus database"""
import gzip
import subprocess
import sys
import numpy as np
from mon import core, gen, build, sparkit
from mon.checks.c14 import ints
from mon.checks.c19 import odd_name

CASES = dict(quick=60, thorough=420)
SHARDS = 3
MEM_LIMIT_GB = 0
IDLE_LIMIT = 150
GRACE = 300
RULE = ('case = source and target files of 1-150 lines (each pair of lines is unique; empty and blank lines, lines on both sides of the maximum '
        'lengths; plain or gz; also names of files that look like patterns or hidden files) x codecs of any scheme (one or two) x truncate or drop x maximum lengths x number of parts x split size of Spark (whole '
        'file or every 50..400 bytes, different on the two sides because the lines differ); by the bitextdb command (in this process, some as a real '
        'process) or by the functions with numpy encoders; the database is read back and each record compared with the encoding of the lines of its '
        'id; files of different numbers of lines; distinct = distinct expected contents')
NEED = dict(dbs=25, records=300, dropped_empty=20, dropped_long=10, truncated=20, splits=8, refused=4, repartitioned=5, numpy_encoders=1, commands=1, huge=1, odd_names=10)
ASSUMPTIONS = ['UTF-8 files without a byte order mark or carriage returns', 'at least one pair remains']


def setup_worker(tier, seed, shard):
    sparkit.session()


def teardown_worker():
    sparkit.close()


class NpEncoder:
    def __init__(self, codec):
        self.codec = codec

    def __call__(self, line):
        return np.array(self.codec.encode(line), dtype=np.int32)


def write(rng, path, lines):
    text = ''.join(l + '\n' for l in lines)
    if lines[-1] and rng.random() < 0.3:
        text = text[:-1]
    data = text.encode('utf8')
    path.write_bytes(gzip.compress(data) if path.name.endswith('.gz') else data)
    return path


def case(ctx):
    from nlcodec import load_scheme, bitextdb
    from nlcodec import spark as su
    from nlcodec.db import MultipartDb
    rng = ctx.rng
    sides = []
    for side in range(2):
        chars = gen.alphabet(rng)
        lines = [''.join(c for c in l if c not in '\r\n\ufeff') for l in gen.corpus(rng, chars=chars, maxwords=rng.choice([3, 10, 30]))] or ['a b']
        if not any(l.strip() for l in lines):
            lines.append('a b')
        level = rng.choice(['word', 'char', 'bpe', 'bpe', 'byte'])
        codec, _ = build.some_scheme(rng, level, lines=lines, chars=chars)
        codec.save(ctx.tmp / f'model{side}')
        sides.append((lines, chars, codec, level))
    same = rng.random() < 0.3
    n = rng.choice([1, 2, 7, 30, 150])
    huge = ctx.i % 29 == 11
    if huge:
        n = rng.choice([1100, 5000])
        ctx.count('huge')
    src, tgt = [], []
    for i in range(n):
        for k, out in enumerate((src, tgt)):
            r = rng.random()
            lines, chars = sides[k][0], sides[k][1]
            if r < 0.08:
                out.append('')
            elif r < 0.12:
                out.append(rng.choice([' ', '\t', '  ']))
            else:
                out.append(rng.choice(lines) + f' {i} ' + rng.choice(chars) * rng.choice([1, 1, 30 if rng.random() < 0.2 else 2]))
    names = [rng.choice(['src.txt', 'src', 'src.gz']), rng.choice(['tgt.txt', 'tgt', 'tgt.gz'])]
    for k in range(2):
        if rng.random() < 0.25:  # names that mean something else to Spark: patterns, and hidden files
            names[k] = odd_name(ctx, rng, k)
    sp, tp = write(rng, ctx.tmp / names[0], src), write(rng, ctx.tmp / names[1], tgt)
    sm, tm = sides[0][2], sides[0][2] if same else sides[1][2]
    ex, ey = [list(map(int, sm.encode(l))) for l in src], [list(map(int, tm.encode(l))) for l in tgt]
    lens_x, lens_y = sorted(map(len, ex)), sorted(map(len, ey))
    pick = lambda ls: rng.choice([1, 256, ls[-1], max(1, ls[-1] - 1), max(1, ls[len(ls) // 2]), 10 ** 6])
    sl, tl = max(1, pick(lens_x)), max(1, pick(lens_y))
    truncate = rng.random() < 0.5
    want = {}
    for i, (a, b, x, y) in enumerate(zip(src, tgt, ex, ey)):
        if not a or not b or not x or not y:
            ctx.count('dropped_empty')
            continue
        if truncate:
            ctx.count('truncated', len(x) > sl or len(y) > tl)
            want[i] = (x[:sl], y[:tl])
        elif len(x) <= sl and len(y) <= tl:
            want[i] = (x, y)
        else:
            ctx.count('dropped_long')
    if not want:
        return
    split = rng.choice([None, 50, 120, 400])
    if split and huge:
        split = 1 + max(sp.stat().st_size, tp.stat().st_size) // 7
    spark = sparkit.session(**{'spark.sql.files.maxPartitionBytes': split or '134217728', 'spark.sql.files.openCostInBytes': 4 if split else 4194304})
    num_parts = rng.choice([0, 0, 1, 2, 5])
    db_path = ctx.tmp / 'db'
    info = dict(n=n, src_level=sides[0][3], tgt_level=sides[0][3] if same else sides[1][3], same=same, src_len=sl, tgt_len=tl, truncate=truncate,
                split=split, num_parts=num_parts)

    def run(command, sp, tp, db_path):
        argv = ['-sm', ctx.tmp / 'model0', '-st', sp, '-tt', tp, '-db', db_path, '-sl', sl, '-tl', tl]
        argv += [] if same else ['-tm', ctx.tmp / 'model1']
        argv += ['-np', num_parts] if num_parts or rng.random() < 0.5 else []
        argv += rng.choice([[], ['--truncate']]) if truncate else ['--no-truncate']
        argv = list(map(str, argv))
        if command:
            r = subprocess.run([sys.executable, '-m', 'nlcodec.bitextdb'] + argv, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if r.returncode:
                raise RuntimeError('bitextdb fails: ' + r.stderr.decode('utf8', 'replace')[-2500:])
            ctx.count('commands')
            return
        old = sys.argv
        try:
            sys.argv = ['nlcodec-db'] + argv
            with sparkit.kept():
                bitextdb.main()
        finally:
            sys.argv = old

    command = ctx.i % 20 == 4
    if not command and rng.random() < 0.2:
        # the functions, with encoders that give arrays
        fx, fy = NpEncoder(sm), NpEncoder(tm)
        df = su.read_raw_bitext_tok(spark, sp if rng.random() < 0.5 else str(sp), tp, truncate=truncate, src_len=sl, tgt_len=tl,
                                    src_tokenizer=fx, tgt_tokenizer=fy)
        db = su.rdd_as_db(df.rdd.map(lambda r: (r.id, (r.x, r.y))), db_path=db_path, repartition=num_parts)
        ctx.count('numpy_encoders')
    else:
        run(command, sp, tp, db_path)
        db = MultipartDb.load(db_path, keep_in_mem=rng.random() < 0.5)
    seen = set()
    for r in db:
        i = int(r.id)
        ctx.check(i not in seen, 'a line number has more than one record', id=i, **info)
        seen.add(i)
        ctx.check(i in want, 'a pair that should be dropped is there (or has another id)', id=i, x=ints(r.x), y=ints(r.y),
                  src=src[i] if 0 <= i < n else None, tgt=tgt[i] if 0 <= i < n else None, **info)
        ctx.equal(ints(r.x), want[i][0], 'source of a record is not the encoding of its line', id=i, line=src[i], **info)
        ctx.equal(ints(r.y), want[i][1], 'target of a record is not the encoding of its line', id=i, line=tgt[i], **info)
        ctx.count('records')
    ctx.equal(sorted(seen), sorted(want), 'pairs are lost', **info)
    ctx.check(len(db) == len(want), 'len of the database', got=len(db), want=len(want), **info)
    ctx.count('dbs')
    ctx.count('splits', split is not None)
    ctx.count('repartitioned', num_parts > 0)
    ctx.sig(sorted(want.items()))
    if ctx.i < 4:
        ctx.sample(dict(info, kept=len(want), src=src[:2], tgt=tgt[:2]))
    if rng.random() < 0.3:
        # raw bitext
        df, m = su.read_raw_bitext(spark, sp, tp)
        rows = sorted((r.idx, r.src_raw, r.tgt_raw) for r in df.collect())
        ctx.equal(rows, [(i, a, b) for i, (a, b) in enumerate(zip(src, tgt))], 'raw bitext is not the lines of the files side by side', **info)
        ctx.check(m == n, 'number of raw pairs', got=m, want=n)
    if rng.random() < 0.5:
        more = ctx.tmp / 'longer'
        which = rng.random() < 0.5
        extra = rng.choice(['x', '', 'x y'])
        write(rng, more, (src if which else tgt) + [extra] * rng.choice([1, 1, 5]) + ['z'])
        bad = ctx.tmp / 'db2'
        ctx.raises(lambda: run(False, more if which else sp, tp if which else more, bad), 'files of different numbers of lines are not refused', **info)
        ctx.check(not (bad / '_SUCCESS').exists(), 'a database is made from files of different numbers of lines', **info)
        ctx.count('refused')
