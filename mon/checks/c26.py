"""C26 unicode expansion of Devanagari"""
import importlib.util
import io
import subprocess
import sys
from mon import core, gen

CASES = dict(quick=22000, thorough=500000)
RULE = ('case = 20 lines of consonants (incl. both ends of the two ranges and the neighbours outside), vowels, signs, viram, nukta, other scripts, '
        'controls; by the class and by main() on streams, some by the command line; distinct = distinct lines with at least one marker')
NEED = dict(lines=100000, markers=100000, edge_chars=10000, stream_lines=5000, cli_lines=50)
ASSUMPTIONS = ['the text does not have the marker U+22EE', 'lines of a file end with newline']
MARK = '⋮'
CONS = [chr(c) for c in range(0x915, 0x93a)] + [chr(c) for c in range(0x958, 0x960)]
EDGE = ['\u0914', '\u0915', '\u0939', '\u093a', '\u0957', '\u0958', '\u095f', '\u0960', '\u093c', '\u094d']
OTHER = list('अआइईाीुू्ंः़०१।॥ॐ') + ['a', ' ', '  ', '\u200d', '\u200c', '😀', 'é', 'ক', 'খ', 'ก', '\u0300', '1', '\t', '\x00']
is_cons = set(CONS).__contains__


def setup_worker(tier, seed, shard):
    global uxdx
    spec = importlib.util.spec_from_file_location('uxdx', core.REPO / 'experimental' / 'uxdx.py')
    uxdx = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(uxdx)


def expand(line):
    out = []
    for i, c in enumerate(line):
        out.append(c)
        if is_cons(c) and i + 1 < len(line) and is_cons(line[i + 1]):
            out.append(MARK)
    return ''.join(out)


def make_line(rng):
    n = rng.choice([0, 1, 2, 3, 8, 30, 200])
    p = rng.random()
    s = []
    for _ in range(n):
        r = rng.random()
        if r < p:
            s.append(rng.choice(CONS))
        elif r < p + 0.1:
            s.append(rng.choice(EDGE))
        elif r < 0.97:
            s.append(rng.choice(OTHER))
        else:
            s.append(gen.any_unicode(rng, 3))
    return ''.join(s).replace(MARK, '')


def case(ctx):
    rng = ctx.rng
    lang = uxdx.Devanagari()
    lines = [make_line(rng) for _ in range(20)]
    for line in lines:
        e = lang.encode(line)
        ctx.equal(e, expand(line), 'expansion is not the line with markers between adjacent consonants', line=line)
        ctx.equal(lang.decode(e), line, 'de-expansion of the expansion is not the line', line=line)
        ctx.equal(lang.decode(line), line, 'de-expansion changes text that has no markers', line=line)
        n = len(e) - len(line)
        ctx.count('lines')
        ctx.count('markers', n)
        ctx.count('edge_chars', sum(1 for c in line if c in EDGE))
        if n:
            ctx.sig(line)
    flines = [l.replace('\n', '').replace('\r', '') for l in lines]
    text = ''.join(l + '\n' for l in flines)
    if ctx.i % 3 == 0:
        o = io.StringIO()
        uxdx.main(io.StringIO(text, newline='\n'), o)
        ctx.equal(o.getvalue(), ''.join(expand(l) + '\n' for l in flines), 'main does not expand line by line')
        o2 = io.StringIO()
        uxdx.main(io.StringIO(o.getvalue(), newline='\n'), o2, decode=True)
        ctx.equal(o2.getvalue(), text, 'main does not give the lines back')
        ctx.count('stream_lines', len(flines))
    if ctx.i % 997 == 5:
        tool = [sys.executable, str(core.REPO / 'experimental' / 'uxdx.py')]
        src, enc, dec = ctx.tmp / 'src', ctx.tmp / 'enc', ctx.tmp / 'dec'
        src.write_bytes(text.encode('utf8'))
        subprocess.run(tool + ['-i', str(src), '-o', str(enc)], check=True)
        ctx.equal(enc.read_bytes().decode('utf8'), ''.join(expand(l) + '\n' for l in flines), 'uxdx command does not expand line by line')
        r = subprocess.run(tool + ['-d'], input=enc.read_bytes(), stdout=subprocess.PIPE, check=True)
        ctx.equal(r.stdout.decode('utf8'), text, 'uxdx -d does not give the lines back')
        ctx.count('cli_lines', len(flines))
    if ctx.i < 4:
        ctx.sample(dict(line=lines[0], expanded=lang.encode(lines[0])))
