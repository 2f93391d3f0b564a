"""C21 the command line against the library"""
import contextlib
import io
import subprocess
import sys
from pathlib import Path
from mon import gen, build, oracle
from mon.oracle import SP, norm

CASES = dict(quick=1800, thorough=20000)
RULE = ('case = one scheme: learn by the command (from text or term frequencies, all options) and by learn_vocab; then encode -> decode of 1-30 lines '
        '(empty lines, odd whitespace, unknowns, foreign characters, last line without newline), pieces and indices, and estimate; by main() of the '
        'module with files and, for one case in 25, by python -m nlcodec with files or pipes, as a whole pipeline; every output line is compared with '
        'the library; distinct = distinct (scheme, lines)')
NEED = dict(learns=1000, encodes=1500, decodes=1500, lines=8000, empty_lines=300, unknown_units=500, subprocesses=100, estimates=1000, idx=500,
            byte=150, **{'class': 100}, tfs=100, round_trips=5000, huge=5)
ASSUMPTIONS = ['UTF-8 locale', 'no carriage returns in the text', 'labels with whitespace are passed as indices',
               'U+2581 not in text of char and bpe']


def no_cr(s):
    return ''.join(c for c in s if c not in '\r\n')


def run_main(argv, stdin=None):
    """main() of the command in this process, with files"""
    from nlcodec import __main__ as cli
    old = sys.argv, sys.stdin, sys.stdout
    out = io.StringIO()
    try:
        sys.argv = ['nlcodec'] + [str(a) for a in argv]
        if stdin is not None:
            sys.stdin = io.StringIO(stdin, newline=None)
        sys.stdout = out
        cli.main()
    finally:
        sys.argv, sys.stdin, sys.stdout = old
    return out.getvalue()


def run_sub(argv, stdin=None):
    r = subprocess.run([sys.executable, '-m', 'nlcodec'] + [str(a) for a in argv], input=None if stdin is None else stdin.encode('utf8'),
                       stdin=subprocess.DEVNULL if stdin is None else None, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode:
        raise RuntimeError(f'{argv} failed: {r.stderr.decode("utf8", "replace")[-1500:]}')
    return r.stdout.decode('utf8')


def out_lines(ctx, text, n, what):
    ctx.check(text == '' or text.endswith('\n'), f'{what}: the last line has no newline')
    res = text.split('\n')[:-1]
    ctx.check(len(res) == n, f'{what}: not one line for each input line', got=len(res), want=n)
    return res


def case(ctx):
    from nlcodec import learn_vocab, load_scheme, ByteScheme, encode, decode
    from nlcodec.qestim import QualityEstimator
    from nlcodec.term_freq import write_stats
    rng = ctx.rng
    level = rng.choice(['word', 'char', 'bpe', 'bpe', 'byte', 'class'])
    chars = gen.alphabet(rng)
    lines = [no_cr(l) for l in gen.corpus(rng, chars=chars)]
    if level in ('char', 'bpe'):
        lines = [l.replace(SP, '') for l in lines]
    if level == 'class':
        lines = [l.strip() or 'label x' for l in lines]
        lines = [' '.join(l.split()) for l in lines]
    if not any(l.strip() for l in lines):
        lines.append('a b')
    sub = ctx.i % 25 == 11
    run = run_sub if sub else run_main

    def call(*argv, text=None, out=None):
        """runs with the text in a file or at stdin, the result in a file or at stdout"""
        argv = list(argv)
        stdin = None
        if text is not None:
            if rng.random() < 0.6:
                p = ctx.tmp / 'in.txt'
                p.write_bytes(text.encode('utf8'))
                argv += [rng.choice(['-i', '--inp']), p]
            else:
                stdin = text
        if out and rng.random() < 0.6:
            p = ctx.tmp / 'out.txt'
            p.unlink(missing_ok=True)
            argv += [rng.choice(['-o', '--out']), p]
            res = run(argv, stdin)
            ctx.equal(res, '', 'output on stdout although a file is given')
            res = p.read_bytes().decode('utf8')
        else:
            res = run(argv, stdin)
        ctx.count('subprocesses', sub)
        return res

    # learn
    model, model2 = ctx.tmp / 'model', ctx.tmp / 'model2'
    kw = build.learn_kwargs(rng, level) if level in ('word', 'char', 'bpe') else dict(vocab_size=-1)
    if level == 'bpe' and kw['vocab_size'] > 1:
        kw['vocab_size'] = max(kw['vocab_size'], build.n_base(lines) + 1)
    argv = ['learn', '-l', level, '-m', model]
    flags = dict(vocab_size=['-vs', '--vocab-size'], min_freq=['-mf', '--min-freq'], char_coverage=['-cv', '--char-coverage'],
                 min_co_ev=['-mce', '--min-co-ev'])
    for k, v in kw.items():
        if v is not None and not (v == -1 and rng.random() < 0.5):
            argv += [rng.choice(flags[k]), str(v)]
    kw.setdefault('min_freq', None)
    from nlcodec import DEF_CHAR_COVERAGE, DEF_MIN_CO_EV
    kw.setdefault('char_coverage', DEF_CHAR_COVERAGE)
    kw.setdefault('min_co_ev', DEF_MIN_CO_EV)
    text = ''.join(l + '\n' for l in lines)
    if rng.random() < 0.2:
        text = text[:-1] if lines[-1] else text
    tfs = level in ('word', 'char', 'bpe') and rng.random() < 0.25
    if tfs:
        freqs = {}
        for l in lines:
            for w in (l.split() if level != 'char' else list(''.join(l.split()))):
                freqs[w] = freqs.get(w, 0) + 1
        buf = io.StringIO()
        write_stats(freqs, buf, line_count=len(lines))
        text = buf.getvalue()
        argv.append(rng.choice(['-tfs', '--term-freqs']))
        ctx.count('tfs')
    if level == 'byte' and rng.random() < 0.5:
        text = ''
    call(*argv, text=text)
    scheme = load_scheme(model)
    table = learn_vocab(inp=io.StringIO(text, newline=None), level=level, model=model2, term_freqs=tfs, **kw)
    lib = load_scheme(model2)
    info = dict(argv=[str(a) for a in argv])
    ctx.check(type(scheme) is type(lib), 'learn command gives another kind of scheme', **info)
    ctx.equal(oracle.table_rows(scheme.table), oracle.table_rows(lib.table), 'learn command does not give the vocabulary of learn_vocab', **info)
    ctx.equal(oracle.table_rows(lib.table), oracle.table_rows(table), 'saved vocabulary is not that of learn_vocab', **info)
    ctx.count('learns')

    # encode
    n = rng.choice([1, 2, 5, 30])
    if ctx.i % 151 == 5:
        n = rng.choice([1100, 5000])
        ctx.count('huge')
    test = []
    labels = {t.name for t in scheme.table}
    for _ in range(n):
        r = rng.random()
        if level == 'class':
            l = rng.choice(sorted(labels))
            l = rng.choice([l, l, f' {l} ', l + '  '])
        elif r < 0.5:
            l = rng.choice(lines)
        elif r < 0.6:
            l = rng.choice(['', '', ' ', '\t '])
        elif r < 0.85:
            l = gen.random_text(rng, chars + ['ж', '☂'])
        else:
            l = gen.any_unicode(rng)
        l = no_cr(l)
        if level in ('char', 'bpe'):
            l = l.replace(SP, '')
        test.append(l)
        ctx.count('empty_lines', not l)
    text = ''.join(l + '\n' for l in test)
    if test[-1] and rng.random() < 0.2:
        text = text[:-1]
    idx = rng.random() < 0.5 or (level == 'class' and any(len(l.split()) != 1 for l in labels))
    flag = [rng.choice(['-idx', '--indices'])] if idx else []
    enc = call('encode', '-m', model, *flag, text=text, out=True)
    got = out_lines(ctx, enc, n, 'encode')
    for l, g in zip(test, got):
        want = [str(i) for i in scheme.encode(l)] if idx else list(scheme.encode_str(l))
        ctx.equal(g, ' '.join(want), 'encode command does not write what the library gives for the line', line=l, scheme=level, idx=idx)
    ctx.equal([list(x) for x in encode(iter(test), scheme, indices=idx)], [list(scheme.encode(l)) if idx else list(scheme.encode_str(l)) for l in test],
              'encode() is not encoding line by line')
    ctx.count('encodes')
    ctx.count('idx', idx)
    # decode
    dec = call('decode', '-m', model, *flag, text=enc, out=True)
    got2 = dec.split('\n')[:-1]
    ctx.check(len(got2) == n and dec.endswith('\n'), 'decode: not one line for each input line', got=len(got2), want=n)
    for l, e, g in zip(test, got, got2):
        want = scheme.decode([int(x) for x in e.split()]) if idx else scheme.decode_str(e.split())
        ctx.equal(g, want, 'decode command does not write what the library gives for the line', line=e, scheme=level, idx=idx)
        if level == 'byte':
            ctx.equal(g, l, 'encode piped into decode is not the text', scheme=level)
        elif level == 'class':
            ctx.equal(g, l.strip(), 'encode piped into decode is not the label', scheme=level)
        elif 1 not in scheme.encode(l):
            ctx.equal(g, norm(l), 'encode piped into decode is not the text', scheme=level)
        else:
            ctx.count('unknown_units')
        ctx.count('round_trips')
        ctx.count('lines')
    ctx.equal(list(decode((x + '\n' for x in got), scheme, indices=idx)), got2, 'decode() is not decoding line by line')
    ctx.count('decodes')
    ctx.count(level)
    # estimate
    if True:
        p = ctx.tmp / 'est.txt'
        p.write_bytes(text.encode('utf8'))
        try:
            with p.open(encoding='utf8') as f:
                want = str(QualityEstimator(scheme).estimate(f))
        except ZeroDivisionError:
            want = None
        if want and 'nan' not in want:
            res = call('estimate', '-m', model, text=text)
            ctx.equal(res.strip(), want, 'estimate command does not print the estimate of the library', scheme=level)
            ctx.count('estimates')
    if sub and not idx and ctx.i % 50 == 11:
        # a real pipe between two processes
        cmd = [sys.executable, '-m', 'nlcodec']
        p = ctx.tmp / 'pipe.txt'
        p.write_bytes(text.encode('utf8'))
        with p.open('rb') as f:
            a = subprocess.Popen(cmd + ['encode', '-m', str(model)], stdin=f, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            b = subprocess.Popen(cmd + ['decode', '-m', str(model)], stdin=a.stdout, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            a.stdout.close()
            res = b.stdout.read().decode('utf8')
            a.wait()
            b.wait()
        ctx.equal(res, dec, 'encode | decode differs from the two steps with files')
        ctx.count('real_pipes')
    ctx.sig(level, test, idx, len(labels))
    if ctx.i < 6:
        ctx.sample(dict(argv=[str(a) for a in argv], line=test[0], encoded=got[0], decoded=got2[0]))
