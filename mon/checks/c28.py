"""C28 explicit vowels of abugida text"""
import importlib.util
import io
import subprocess
import sys
from mon import core, gen

CASES = dict(quick=15000, thorough=300000)
RULE = ('case = 20 lines of well-formed Hindi-like words (clusters, dead last consonants, all vowel signs, full vowels at the beginning and inside, '
        'nasal signs, nukta, both ends of the consonant ranges) mixed with foreign text; by the class, the lite class and main() on streams, some by '
        'the command; distinct = distinct lines with some abugida word')
NEED = dict(lines=50000, words=100000, clusters=20000, dead_ends=10000, full_inside=10000, signs=50000, nukta=3000, stream_lines=5000, cli_lines=40, lite=30000)
ASSUMPTIONS = ['well-formed text: a vowel sign follows a consonant (with or without nukta), virama stands right after a consonant and before a consonant, '
               'space, tab, or the end; no private-use U+E000 in the text']
CONS = [chr(c) for c in range(0x915, 0x93a)] + [chr(c) for c in range(0x958, 0x960)]
SIGN = {'ा': 'आ', 'ि': 'इ', 'ी': 'ई', 'ु': 'उ', 'ू': 'ऊ', 'ृ': 'ऋ', 'ॄ': 'ॠ', 'ॅ': 'ऍ', 'ॆ': 'ऎ', 'े': 'ए', 'ै': 'ऐ', 'ॉ': 'ऑ', 'ॊ': 'ऒ', 'ो': 'ओ', 'ौ': 'औ',
        'ॢ': 'ऌ', 'ॣ': 'ॡ'}
FULL = ['अ'] + list(SIGN.values())
SEMI = ['ं', 'ः', 'ँ']
VIRAMA, NUKTA = '्', '़'
MARK = '\ue000'
FOREIGN = list('abXYZ019.,!?-\'"#।॥०१ॐ') + ['é', '😀', 'ক', 'あ', '\u200d', '⋮', '\u3000', '\xa0', '\x0b']


def setup_worker(tier, seed, shard):
    global fix
    spec = importlib.util.spec_from_file_location('unicode_fix', core.REPO / 'experimental' / 'unicode_fix.py')
    fix = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(fix)


def make_word(ctx, rng, nukta):
    """:return the word, and its form with explicit vowels"""
    text, want = '', ''
    n = rng.choice([1, 1, 2, 3, 4, 8])
    for k in range(n):
        r = rng.random()
        if r < 0.15:
            v = rng.choice(FULL)
            if text:
                want += v + MARK
                ctx.count('full_inside')
            else:
                want += v
            text += v
        elif r < 0.22:
            f = rng.choice(FOREIGN)
            text += f
            want += f
            continue
        else:
            m = rng.choice([1, 1, 1, 2, 2, 3])
            cs = [rng.choice(CONS) for _ in range(m)]
            ctx.count('clusters', m > 1)
            text += VIRAMA.join(cs)
            want += ''.join(cs)
            if k == n - 1 and rng.random() < 0.25:
                text += VIRAMA
                ctx.count('dead_ends')
                return text, want
            nk = nukta and rng.random() < 0.2
            if nk:
                text += NUKTA
                ctx.count('nukta')
            if rng.random() < 0.6:
                s = rng.choice(list(SIGN))
                text += s
                want += SIGN[s]
                ctx.count('signs')
            else:
                want += 'अ'
        if rng.random() < 0.15:
            s = rng.choice(SEMI)
            text += s
            want += s
    return text, want


def case(ctx):
    rng = ctx.rng
    lang = fix.get_aubugida(rng.choice(['hin', 'hindi', 'devanagari', 'sanskrit']))
    data = dict(vowels={v: s for s, v in SIGN.items()}, consonants=set(CONS), impl_vowel='अ', virama=VIRAMA, semi_vowels=set(SEMI))
    data['vowels'] = {'अ': None, **data['vowels']}
    own = fix.AbugidaLang('x', **data)
    lite = fix.AbugidaLangLite('x', **data)
    lines, wants = [], []
    for _ in range(20):
        nukta = rng.random() < 0.2
        line = want = ''
        for _ in range(rng.choice([0, 1, 2, 5, 12])):
            sep = rng.choice([' ', ' ', ' ', '\t', '  '])
            w, e = make_word(ctx, rng, nukta)
            line, want = line + w + sep, want + e + sep
            ctx.count('words')
        if rng.random() < 0.7:
            line, want = line.rstrip(' \t'), want.rstrip(' \t')
        enc = lang.encode(line)
        if not nukta:
            ctx.equal(enc, want, 'the text does not have its vowels written out', line=line)
        ctx.equal(lang.decode(enc), line, 'decoding does not restore the text', line=line, encoded=enc)
        ctx.equal(own.encode(line), enc, 'a language made by hand gives another text', line=line)
        ctx.check('्' not in enc, 'virama stays', line=line)
        if not any(line[i] in CONS and line[i + 1] == 'अ' for i in range(len(line) - 1)):
            le = lite.encode(line)
            ctx.check('्' not in le, 'virama stays (lite)', line=line)
            ctx.equal(lite.decode(le), line, 'decoding does not restore the text (lite)', line=line, encoded=le)
            ctx.count('lite')
        ctx.count('lines')
        if want != line:
            ctx.sig(line)
        lines.append(line)
        wants.append(enc)
    text = ''.join(l + '\n' for l in lines)
    if ctx.i % 3 == 0:
        o, o2 = io.StringIO(), io.StringIO()
        fix.main(io.StringIO(text, newline='\n'), o, rng.choice(['hin', lang]))
        ctx.equal(o.getvalue(), ''.join(l + '\n' for l in wants), 'main does not convert line by line')
        fix.main(io.StringIO(o.getvalue(), newline='\n'), o2, 'hin', decode=True)
        ctx.equal(o2.getvalue(), text, 'main does not give the lines back')
        ctx.count('stream_lines', len(lines))
    if ctx.i % 997 == 5:
        tool = [sys.executable, str(core.REPO / 'experimental' / 'unicode_fix.py'), '-l', 'hin']
        src, enc = ctx.tmp / 'src', ctx.tmp / 'enc'
        src.write_bytes(text.encode('utf8'))
        subprocess.run(tool + ['-i', str(src), '-o', str(enc)], check=True)
        ctx.equal(enc.read_bytes().decode('utf8'), ''.join(l + '\n' for l in wants), 'the command does not convert line by line')
        r = subprocess.run(tool + ['-d'], input=enc.read_bytes(), stdout=subprocess.PIPE, check=True)
        ctx.equal(r.stdout.decode('utf8'), text, 'the command does not give the lines back')
        ctx.count('cli_lines', len(lines))
    if ctx.i < 4:
        ctx.sample(dict(line=lines[0], encoded=wants[0]))
