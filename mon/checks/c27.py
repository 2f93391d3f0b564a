"""C27 IO of text and binary files, plain and gzip"""
import gzip
import io
import os
from pathlib import Path
from mon import gen
from mon.inlocale import c_locale

CASES = dict(quick=30000, thorough=400000)
RULE = ('case = lines of any Unicode (all kinds of line separators other than newline inside, empty, long) or bytes x plain/gz x Path/str x write, '
        'append (also to a missing file), read as lines / whole, several files as one stream (last line without newline, empty files), errors raised '
        'inside with-blocks and abandoned streams; the bytes on disk are judged too; distinct = distinct contents')
NEED = dict(c_locale=100, files=2000, gz_files=800, lines=15000, appends=500, binary=1000, streams=1000, errors=1000, cr_lines=1000, abandoned=300, encodings=3000, huge=4, binary_streams=3000)
ASSUMPTIONS = ['no lone surrogates (they are replaced by design)', 'files are UTF-8']


def raw_bytes(path):
    return gzip.decompress(path.read_bytes()) if path.name.endswith('.gz') else path.read_bytes()


def open_fds(tmp):
    res = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            p = os.readlink(f'/proc/self/fd/{fd}')
        except OSError:
            continue
        if p.startswith(str(tmp)):
            res.append(p)
    return res


def make_lines(rng, huge=False):
    n = rng.choice([0, 1, 2, 5, 30])
    if huge:  # many lines, or a long one
        if rng.random() < 0.5:
            return [f'{i} {rng.choice("aé的😀")}' for i in range(rng.choice([70000, 120000]))]
        return ['a', rng.choice(['é', 'x', '😀', 'a的']) * rng.choice([70000, 1100000]), '']
    res = []
    for _ in range(n):
        r = rng.random()
        if r < 0.5:
            s = gen.any_unicode(rng, rng.choice([2, 10, 60]))
        elif r < 0.8:
            s = gen.random_text(rng, gen.alphabet(rng))
        elif r < 0.9:
            s = rng.choice(['', '\r', 'a\rb', 'a\r', '\x85', 'a\u2028b', '\x0b\x0c', '\ufeffx', '\x1c', '\x00', ' '])
        else:
            s = rng.choice(['é', 'x', '😀']) * rng.choice([100, 5000, 9000])
        res.append(s.replace('\n', rng.choice(['\r', ' '])))
    return res


class Boom(Exception):
    pass


def case(ctx):
    if ctx.i % 1499 == 7 and not ctx.c_locale:
        return c_locale(ctx, 12)
    from nlcodec.utils import IO
    rng = ctx.rng
    paths, all_lines = [], []
    for k in range(rng.choice([1, 1, 2, 3])):
        name = rng.choice(['f.txt', 'f', 'f.gz.txt', 'f gz', 'f.gz', 'f.txt.gz', 'f.gz' if ctx.c_locale else 'ф.gz', 'f.tar.gz'])
        path = ctx.tmp / f'{k}{name}'
        arg = (lambda p=path: p if rng.random() < 0.5 else str(p))
        gz = name.endswith('.gz')
        lines = make_lines(rng, huge=ctx.i % 3001 == 11)
        ctx.count('huge', ctx.i % 3001 == 11)
        last_nl = rng.random() < 0.8
        text = '\n'.join(lines) + ('\n' if last_nl and lines else '')
        if rng.random() < 0.2:
            with IO.writer(arg(), text=False) as o:
                o.write(b'old data\n' * rng.randint(1, 50))
        with IO.writer(arg()) as o:
            if rng.random() < 0.5:
                o.write(text)
            else:
                for i, l in enumerate(lines):
                    o.write(l)
                    if i + 1 < len(lines) or last_nl:
                        o.write('\n')
        ctx.check(o.closed, 'writer is not closed at the end', path=path.name)
        ctx.equal(raw_bytes(path).decode('utf8'), text, 'the file does not have the text written', path=path.name)
        if rng.random() < 0.4:
            more = make_lines(rng)
            add = ''.join(l + '\n' for l in more)
            with IO.writer(arg(), append=True) as o:
                o.write(add)
            text += add
            ctx.equal(raw_bytes(path).decode('utf8'), text, 'append does not add at the end', path=path.name)
            ctx.count('appends')
        with IO.reader(arg()) as f:
            got = list(f)
        ctx.check(f.closed, 'reader is not closed at the end', path=path.name)
        want = list(io.StringIO(text, newline='\n'))
        ctx.equal(got, want, 'lines read are not the lines written', path=path.name)
        with IO.reader(arg()) as f:
            ctx.equal(f.read(), text, 'text read is not the text written', path=path.name)
        with IO.reader(arg(), text=False) as f:
            ctx.equal(f.read(), text.encode('utf8'), 'binary read is not the bytes written', path=path.name)
        ctx.count('files')
        ctx.count('gz_files', gz)
        ctx.count('lines', len(want))
        ctx.count('cr_lines', sum(1 for l in want if '\r' in l))
        paths.append(path)
        all_lines.append(want)
        ctx.sig(text, gz)
    # binary
    data = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 10, 300]))) * rng.choice([1, 1, 100])
    path = ctx.tmp / rng.choice(['bin', 'bin.gz'])
    with IO.writer(path, text=False) as o:
        o.write(data)
    if rng.random() < 0.5:
        with IO.writer(path, text=False, append=True) as o:
            o.write(data[::-1])
        data += data[::-1]
    ctx.equal(raw_bytes(path), data, 'binary file does not have the bytes written', path=path.name)
    with IO.reader(path, text=False) as f:
        ctx.equal(f.read(), data, 'binary read is not the bytes written', path=path.name)
    ctx.count('binary')
    # encodings and bad bytes
    enc = rng.choice(['utf-16', 'utf-16-le', 'utf-32', 'utf-8-sig', 'utf8'])
    path = ctx.tmp / rng.choice(['enc', 'enc.gz'])
    text = ''.join(l + '\n' for l in rng.choice(all_lines or [[]]))
    with IO(path if rng.random() < 0.5 else str(path), 'wt', encoding=enc) as o:
        o.write(text)
    ctx.equal(raw_bytes(path), text.encode(enc) if text else raw_bytes(path), 'the file is not in the encoding asked for', enc=enc)
    with IO(path, 'rt', encoding=enc) as f:
        ctx.equal(list(f), list(io.StringIO(text, newline='\n')), 'lines read are not the lines written', enc=enc)
    bad = bytes(rng.choice([rng.randrange(256), 0xe2, 0x82, 0x41, 0xc3, 0x0a]) for _ in range(rng.choice([1, 5, 50])))
    path = ctx.tmp / rng.choice(['bad', 'bad.gz'])
    with IO.writer(path, text=False) as o:
        o.write(bad)
    with IO.reader(path) as f:
        ctx.equal(f.read(), bad.decode('utf8', 'replace'), 'malformed UTF-8 is not read with replacement', bad=bad)
    errors = rng.choice(['ignore', 'surrogateescape', 'backslashreplace'])
    with IO(path, 'rt', errors=errors) as f:
        ctx.equal(f.read(), bad.decode('utf8', errors), 'malformed UTF-8 is not read in the way asked for', bad=bad, errors=errors)
    ctx.count('encodings')
    # streams
    idx = [rng.randrange(len(paths)) for _ in range(rng.choice([0, 1, 2, 4]))]
    want = [l for i in idx for l in all_lines[i]]
    sel = [paths[i] if rng.random() < 0.5 else str(paths[i]) for i in idx]
    ctx.equal(list(IO.read_as_stream(sel)), want, 'stream of files does not give all the lines in order', files=len(idx))
    ctx.count('streams')
    if rng.random() < 0.5:  # of bytes
        files = sel + [str(path)] + sel[:1]
        want_b = [l for f in files for l in io.BytesIO(raw_bytes(Path(f)))]
        ctx.equal(list(IO.read_as_stream(files, text=False)), want_b, 'stream of binary files does not give all the bytes in order', files=len(files))
        ctx.count('binary_streams')
    ctx.equal(open_fds(ctx.tmp), [], 'files are left open')
    if want:
        st = IO.read_as_stream(sel)
        m = rng.randint(1, len(want))
        ctx.equal([next(st) for _ in range(m)], want[:m], 'stream of files does not give all the lines in order')
        st.close()
        ctx.equal(open_fds(ctx.tmp), [], 'files are left open after an abandoned stream')
        ctx.count('abandoned')
    # errors
    p = rng.choice(paths)
    for kind in ('read', 'write'):
        q = p if kind == 'read' else ctx.tmp / f'err{rng.choice(["", ".gz"])}'
        try:
            with (IO.reader(q) if kind == 'read' else IO.writer(q)) as f:
                if kind == 'write':
                    f.write('some text\n')
                raise Boom()
        except Boom:
            pass
        else:
            ctx.check(False, 'IO swallows the error raised inside', kind=kind)
        ctx.check(f.closed, 'file is not closed upon an error', kind=kind)
        if kind == 'write':
            ctx.equal(raw_bytes(q), b'some text\n', 'text written before the error is lost')
        ctx.count('errors')
    ctx.equal(open_fds(ctx.tmp), [], 'files are left open after an error')
    if ctx.i < 4:
        ctx.sample(dict(files=[q.name for q in paths], lines=[w[:3] for w in all_lines]))
