"""C09 determinism of learning"""
import json
import os
import subprocess
import sys
from mon import gen, oracle, core
from mon.checks.c08 import bpe_corpus

CASES = dict(quick=64, thorough=900)
RULE = ('case = 12 corpora with many ties and repeats x level x arguments; learned in this process, again after other learning, from '
        'list/generator/file, and in 4 fresh processes with different hash seeds, allocation patterns and gc settings; all the tables '
        'must be the same; distinct = distinct (process, table)')
NEED = dict(subprocess_tables=1000, in_process_repeats=300)

CHILD = r'''
import sys, json, os, gc, random
job = json.load(open(sys.argv[1])); variant = int(sys.argv[2])
import logging; logging.disable(logging.CRITICAL)
from nlcodec import learn_vocab
rnd = random.Random(variant)
keep = []
def noise():
    # changes the addresses of later objects
    for _ in range(rnd.randint(0, 3000)):
        keep.append(bytearray(rnd.randint(1, 200)) if rnd.random() < .5 else object())
    rnd.shuffle(keep)
    del keep[:len(keep) // 2]
if variant == 2: gc.disable()
if variant == 3: gc.set_threshold(5, 2, 2)
if variant == 4: random.seed(99)
if variant == 5:
    import time
    now = [0]
    def tick():
        now[0] += rnd.choice([0, 3, 50])
        return now[0]
    time.time = time.monotonic = time.perf_counter = tick
res = []
order = list(range(len(job)))
if variant % 2: order.reverse()
for j in order:
    noise()
    a = job[j]
    t = learn_vocab(inp=iter(a['lines']), model=None, **a['kw'])
    res.append((j, [(x.idx, x.name, x.level, x.freq, [k.idx for k in x.kids] if x.kids else []) for x in t]))
print(json.dumps(sorted(res)))
'''


def rows_of(table):
    return [[x.idx, x.name, x.level, x.freq, [k.idx for k in x.kids] if x.kids else []] for x in table]


def case(ctx):
    from nlcodec import learn_vocab
    rng = ctx.rng
    jobs = []
    for _ in range(12):
        level = rng.choice(['bpe', 'bpe', 'bpe', 'word', 'char', 'class'])
        lines = bpe_corpus(rng) if level == 'bpe' else gen.corpus(rng)
        kw = dict(level=level, vocab_size=rng.choice([-1, 10, 20]), min_freq=rng.choice([None, 1, 2]))
        if level == 'bpe':
            kw.update(vocab_size=rng.choice([0, 500]), min_co_ev=2, char_coverage=rng.choice([1.0, 0.9]))
        jobs.append(dict(lines=lines, kw=kw))
    base = []
    for a in jobs:
        base.append(rows_of(learn_vocab(inp=list(a['lines']), model=None, **a['kw'])))
    for j, a in enumerate(jobs):
        how = rng.choice(['list', 'gen', 'file'])
        if how == 'list':
            t = learn_vocab(inp=a['lines'], model=None, **a['kw'])
        elif how == 'gen':
            t = learn_vocab(inp=(l for l in a['lines']), model=None, **a['kw'])
        else:
            p = ctx.tmp / 'data.txt'
            p.write_text('\n'.join(a['lines']) + '\n', encoding='utf8', newline='')
            # only \n ends a line here: other line breaks are whitespace inside of lines
            with open(p, encoding='utf8', newline='\n') as f:
                t = learn_vocab(inp=f, model=ctx.tmp / 'model', **a['kw'])
        ctx.equal(rows_of(t), base[j], f'learning again in the process ({how}) gives another vocabulary', kw=a['kw'], lines=a['lines'][:30])
        ctx.count('in_process_repeats')
    (ctx.tmp / 'jobs.json').write_text(json.dumps(jobs))
    (ctx.tmp / 'child.py').write_text(CHILD)
    for variant in rng.sample(range(6), 4):
        env = dict(os.environ, PYTHONHASHSEED=str(rng.choice([0, 1, 2, 3, 42, 12345, 'random'])))
        r = subprocess.run([sys.executable, str(ctx.tmp / 'child.py'), str(ctx.tmp / 'jobs.json'), str(variant)], env=env,
                           capture_output=True, text=True)
        if r.returncode:
            raise core.Violation('learning fails in a fresh process', stderr=r.stderr[-2000:])
        for j, rows in json.loads(r.stdout):
            ctx.equal(rows, base[j], 'another process gives another vocabulary', kw=jobs[j]['kw'], lines=jobs[j]['lines'][:30],
                      hashseed=env['PYTHONHASHSEED'], variant=variant)
            ctx.count('subprocess_tables')
            ctx.sig(variant, env['PYTHONHASHSEED'], rows)
    if ctx.i < 3:
        ctx.sample(dict(jobs=[(a['kw'], len(a['lines'])) for a in jobs[:4]], sizes=[len(b) for b in base]))
