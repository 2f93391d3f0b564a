"""Runner of the monitors: shards the cases of one property over forked workers, watches their
progress, collects what the monitors observed, and decides the verdict.

Verdicts: 0 held on all that was observed; 1 violated (VIOLATION line and a replay file);
3 inconclusive (the harness itself failed, or the monitors have not seen enough)."""
import faulthandler
import hashlib
import importlib
import json
import logging
import os
import random
import resource
import shutil
import signal
import sys
import time
import traceback
from collections import Counter
from pathlib import Path

VERIF = Path(os.environ.get('VERIF', Path(__file__).resolve().parent.parent))
REPO = Path(os.environ.get('REPO', '/repo'))
SCRATCH = Path(os.environ['SCRATCH'])
HERE = str(VERIF)


class Violation(Exception):
    """The code broke the property"""

    def __init__(self, msg, key=None, **details):
        super().__init__(msg)
        if key is not None and not isinstance(key, str):
            key, details['key_'] = None, short(key)
        self.msg, self.key, self.details = msg, key, details


class HarnessError(Exception):
    """The monitor could not do its work; this says nothing on the code"""


def short(obj, n=600):
    s = obj if isinstance(obj, str) else repr(obj)
    return s if len(s) <= n else s[:n] + f'...<{len(s)} chars>'


class Ctx:
    """What a case gets: its random source, its scratch dir, and the recorder of observations"""

    def __init__(self, pid, tier, seed, i, tmp):
        self.pid, self.tier, self.seed, self.i, self.tmp = pid, tier, seed, i, Path(tmp)
        self.rng = random.Random(f'{seed}/{pid}/{i}')
        self.counts = Counter()
        self.sigs = set()
        self.samples = []
        self.c_locale = False   # this interpreter has a locale which is not UTF-8

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def count(self, name, n=1):
        self.counts[name] += int(n)

    def sig(self, *obj):
        """registers a distinct non-trivial situation that was observed"""
        self.sigs.add(hashlib.blake2b(repr(obj).encode('utf8', 'backslashreplace'), digest_size=8).hexdigest())

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(json.loads(json.dumps(obj, default=lambda o: short(o), ensure_ascii=True)))

    def check(self, cond, msg, key=None, **details):
        self.counts['oracle_checks'] += 1
        if not cond:
            raise Violation(msg, key=key, **details)

    def equal(self, got, want, msg, **details):
        self.counts['oracle_checks'] += 1
        if not (got == want):
            raise Violation(msg, got=short(got), want=short(want), diff=first_diff(got, want), **details)

    def raises(self, fn, msg, types=Exception, **details):
        """the call should fail with an exception"""
        self.counts['oracle_checks'] += 1
        try:
            res = fn()
        except types as e:
            return e
        raise Violation(msg, returned=short(res), **details)


def first_diff(a, b):
    try:
        if isinstance(a, dict) and isinstance(b, dict):
            ks = [k for k in list(a) + list(b) if a.get(k) != b.get(k) or (k in a) != (k in b)]
            return short([(k, a.get(k), b.get(k)) for k in ks[:3]])
        if isinstance(a, (list, tuple, str)) and isinstance(b, (list, tuple, str)):
            for i, (x, y) in enumerate(zip(a, b)):
                if x != y:
                    return short(f'at {i}: got {short(x, 200)} want {short(y, 200)}')
            return f'lengths {len(a)} and {len(b)}'
    except Exception:
        pass
    return ''


def seed_all(seed):
    import numpy as np
    random.seed(seed)
    np.random.seed(int(hashlib.blake2b(str(seed).encode(), digest_size=4).hexdigest(), 16))


def quiet():
    logging.disable(logging.CRITICAL)


def load_check(pid):
    return importlib.import_module(f'mon.checks.{pid.lower()}')


def repo_frame(tb):
    """does the traceback pass through the code under test?"""
    repo = str(REPO)
    return any(f.filename.startswith(repo) for f in traceback.extract_tb(tb))


def run_case(mod, ctx):
    """:return None or dict of the violation. HarnessError goes to the caller"""
    seed_all(f'{ctx.seed}/{ctx.pid}/{ctx.i}')
    try:
        mod.case(ctx)
    except Violation as v:
        return dict(case=ctx.i, msg=v.msg, key=v.key, details=v.details)
    except HarnessError:
        raise
    except (KeyboardInterrupt, SystemExit) as e:
        if isinstance(e, SystemExit):
            return dict(case=ctx.i, msg=f'the code called sys.exit({e.code!r})', key=None,
                        details=dict(trace=short(traceback.format_exc(), 3000)))
        raise
    except BaseException as e:  # the code under test has no business to fail in these workloads
        trace = traceback.format_exc()
        if isinstance(e, OSError) and e.errno in (28, 122, 24, 11, 12):  # no space, quota, files, procs, mem
            raise HarnessError(f'resources: {e!r}')
        if not repo_frame(e.__traceback__) and not getattr(mod, 'ALL_ERRORS_ARE_VIOLATIONS', False) \
                and isinstance(e, (NameError, ImportError, SyntaxError)):
            raise HarnessError(trace)
        return dict(case=ctx.i, msg=f'unexpected {type(e).__name__}: {short(str(e), 300)}', key=None,
                    details=dict(trace=trace[-3500:]))
    return None


# ------------------------------------------------------------------ progress watch

def proc_table():
    tab = {}
    for d in os.listdir('/proc'):
        if d.isdigit():
            try:
                with open(f'/proc/{d}/stat', 'rb') as f:
                    s = f.read()
                r = s[s.rindex(b')') + 2:].split()
                # state, ppid, pgrp, ... utime(11) stime(12) cutime(13) cstime(14)
                tab[int(d)] = (r[0].decode(), int(r[1]), int(r[11]) + int(r[12]) + int(r[13]) + int(r[14]))
            except (OSError, ValueError):
                pass
    return tab


def tree_of(pid, tab):
    kids = {}
    for p, (_, pp, _) in tab.items():
        kids.setdefault(pp, []).append(p)
    out, todo = [], [pid]
    while todo:
        p = todo.pop()
        if p in tab:
            out.append(p)
            todo.extend(kids.get(p, []))
    return out


def kill_tree(pid):
    tab = proc_table()
    for p in tree_of(pid, tab):
        try:
            os.kill(p, signal.SIGKILL)
        except OSError:
            pass


HZ = os.sysconf('SC_CLK_TCK')


class Watch:
    """Decides that a worker makes no progress: by CPU time consumed by one case, or when its whole
    process tree has been asleep for long; wall-clock alone never decides."""

    def __init__(self, pid, cpu_limit, idle_limit):
        self.pid, self.cpu_limit, self.idle_limit = pid, cpu_limit, idle_limit
        self.case = None
        self.hist = []

    def update(self, case, tab):
        tree = tree_of(self.pid, tab)
        now = time.monotonic()
        cpu = sum(tab[p][2] for p in tree) / HZ
        busy = any(tab[p][0] in 'RD' for p in tree)
        if case != self.case:
            self.case, self.cpu0, self.t0 = case, cpu, now
            self.hist = []
        self.hist.append((now, cpu, busy))
        if case is None or case < 0:
            return None
        if cpu - self.cpu0 > self.cpu_limit:
            return f'no progress: case used {cpu - self.cpu0:.0f} s of CPU time without finishing'
        while len(self.hist) > 2 and self.hist[1][0] <= now - self.idle_limit:
            self.hist.pop(0)
        t, c, _ = self.hist[0]
        if now - t >= self.idle_limit and len(self.hist) >= 10:
            nbusy = sum(1 for h in self.hist if h[2])
            if cpu - c < 0.05 * (now - t) and nbusy <= 0.1 * len(self.hist):
                return f'no progress: all processes of the case were asleep for {now - t:.0f} s (deadlock?)'
        return None


# ------------------------------------------------------------------ worker

def worker(mod, pid, tier, seed, shard, n_shards, n_cases, outdir, deadline, only=None):
    """runs cases shard, shard + n_shards, ... ; writes results as they come"""
    out = open(outdir / f'res-{shard}.jsonl', 'w', buffering=1)
    faulthandler.enable(file=open(outdir / f'stack-{shard}.txt', 'w'))
    faulthandler.register(signal.SIGUSR1, file=open(outdir / f'dump-{shard}.txt', 'w'), all_threads=True)
    quiet()
    mem = getattr(mod, 'MEM_LIMIT_GB', 6)
    if mem:
        resource.setrlimit(resource.RLIMIT_AS, (mem << 30, mem << 30))
    if not os.environ.get('MON_VERBOSE'):
        devnull = os.open(os.devnull, os.O_RDWR)
        os.dup2(devnull, 0)
        os.dup2(devnull, 1)
        log = os.open(str(outdir / f'stderr-{shard}.txt'), os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
        os.dup2(log, 2)
    hb = open(outdir / f'hb-{shard}', 'w')

    def beat(i):
        hb.seek(0)
        hb.write(f'{i:>12}')
        hb.flush()

    cases = list(range(n_cases))
    random.Random(0).shuffle(cases)  # spreads the costly ones evenly
    cases = cases[shard::n_shards] if only is None else [only]
    tot, sigs, samples, done, slowest = Counter(), set(), [], 0, (0, -1)
    err = None
    try:
        if hasattr(mod, 'setup_worker'):
            mod.setup_worker(tier, seed, shard)
        for i in cases:
            if time.monotonic() > deadline:
                tot['cases_not_run_for_time'] += 1
                continue
            tmp = SCRATCH / f'case-{shard}'
            shutil.rmtree(tmp, ignore_errors=True)
            tmp.mkdir()
            os.chdir(tmp)
            ctx = Ctx(pid, tier, seed, i, tmp)
            beat(i)
            c0 = sum(os.times()[:4])
            v = run_case(mod, ctx)
            slowest = max(slowest, (round(sum(os.times()[:4]) - c0, 1), i))
            beat(-1)
            done += 1
            tot.update(ctx.counts)
            sigs |= ctx.sigs
            if len(samples) < 4:
                samples += ctx.samples
            os.chdir(SCRATCH)
            shutil.rmtree(tmp, ignore_errors=True)
            if v:
                out.write(json.dumps(dict(violation=v), default=short) + '\n')
                if not (v['key'] and v['key'] in known_keys(pid)):
                    if os.environ.get('MON_ALL') is None:
                        break
    except HarnessError as e:
        err = f'{e}'
    except MemoryError:
        err = traceback.format_exc()
    except BaseException:
        err = traceback.format_exc()
    finally:
        try:
            if hasattr(mod, 'teardown_worker'):
                mod.teardown_worker()
        except BaseException:
            pass
    out.write(json.dumps(dict(done=done, counts=tot, sigs=sorted(sigs), samples=samples[:6], slowest=slowest, error=err)) + '\n')
    out.close()


# ------------------------------------------------------------------ known findings

def known_findings():
    """lines 'finding: property=<id> key=<mechanism> <what fails>'"""
    res = []
    path = VERIF / 'KNOWN_FINDINGS.txt'
    if path.exists():
        for line in path.read_text().splitlines():
            if line.startswith('finding:'):
                parts = line[len('finding:'):].split(None, 2)
                res.append((parts[0].split('=', 1)[1], parts[1].split('=', 1)[1], parts[2]))
    return res


def known_keys(pid):
    return {k for p, k, _ in known_findings() if p == pid}


# ------------------------------------------------------------------ master

WORKERS = {}   # pid -> shard


def main(argv):
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument('pid')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    p.add_argument('--replay')
    p.add_argument('--cases', type=int)
    p.add_argument('--case', type=int)
    p.add_argument('--shards', type=int)
    a = p.parse_args(argv)
    only = a.case
    if a.replay:
        r = json.loads(Path(a.replay).read_text())
        assert r['property'] == a.pid
        a.tier, a.seed, only = r['tier'], r['seed'], r['case']
    t0 = time.monotonic()
    evidence = VERIF / 'evidence' / f'{a.pid}.json'
    evidence.parent.mkdir(exist_ok=True)
    if evidence.exists() and only is None:
        evidence.unlink()
    try:
        check_import()
        mod = load_check(a.pid)
    except BaseException:
        traceback.print_exc()
        trace = traceback.format_exc()
        if f'{REPO}/' in trace.split('mon/checks')[-1]:
            # the code under test cannot even be imported
            return report(a, None, dict(case=-1, msg='cannot import the code', key=None,
                                        details=dict(trace=trace)), Counter(), set(), [], 0, 0, t0, evidence)
        return 3
    n_cases = a.cases or mod.CASES[a.tier]
    n_shards = a.shards or min(getattr(mod, 'SHARDS', 8), n_cases)
    if only is not None:
        n_shards = 1
    budget = getattr(mod, 'BUDGET', dict(quick=500, thorough=2400))[a.tier]
    deadline = t0 + budget
    outdir = SCRATCH / 'out'
    outdir.mkdir()
    pids = WORKERS
    for s in range(n_shards):
        sys.stdout.flush()
        sys.stderr.flush()
        c = os.fork()
        if c == 0:
            try:
                worker(mod, a.pid, a.tier, a.seed, s, n_shards, n_cases, outdir, deadline, only)
            finally:
                os._exit(0)
        pids[c] = s
    # the slowest cases of the unchanged code take 5 s (quick) and 60 s (thorough) of CPU
    cpu_limit = getattr(mod, 'CASE_CPU_LIMIT', dict(quick=100, thorough=400))[a.tier]
    watches = {s: Watch(c, cpu_limit, getattr(mod, 'IDLE_LIMIT', 60)) for c, s in pids.items()}
    pid_of = {s: c for c, s in pids.items()}
    violations, errors, alive = [], [], dict(pids)
    hard = deadline + getattr(mod, 'GRACE', 240)
    tick = 0
    while alive:
        for c in list(alive):
            r, st = os.waitpid(c, os.WNOHANG)
            if r:
                s = alive.pop(c)
                if os.WIFSIGNALED(st):
                    sig = os.WTERMSIG(st)
                    case = read_beat(outdir, s)
                    stack = tail(outdir / f'stack-{s}.txt')
                    if sig == signal.SIGKILL:
                        errors.append(f'worker {s} was killed during case {case} (out of memory?)')
                    else:
                        violations.append(dict(case=case, msg=f'process crashed by signal {sig}', key=None,
                                               details=dict(stack=stack)))
        if not alive:
            break
        time.sleep(0.05 if tick < 40 else 0.25)
        tick += 1
        if tick % 8 == 0:
            tab = proc_table()
            for c, s in list(alive.items()):
                case = read_beat(outdir, s)
                why = watches[s].update(case, tab)
                if why:
                    try:
                        os.kill(c, signal.SIGUSR1)
                        time.sleep(1)
                    except OSError:
                        pass
                    violations.append(dict(case=case, msg=why, key=None,
                                           details=dict(stack=tail(outdir / f'dump-{s}.txt'))))
                    kill_tree(c)
                    os.waitpid(c, 0)
                    alive.pop(c)
        if time.monotonic() > hard:
            for c, s in list(alive.items()):
                errors.append(f'watchdog: worker {s} was still in case {read_beat(outdir, s)} after {time.monotonic() - t0:.0f} s')
                kill_tree(c)
                os.waitpid(c, 0)
                alive.pop(c)
        if violations and os.environ.get('MON_ALL') is None:
            # a witness is enough: do not wait for others for long
            hard = min(hard, time.monotonic() + 30)
    counts, sigs, samples, done, slowest = Counter(), set(), [], 0, [0, -1]
    finished = set()
    for s in range(n_shards):
        path = outdir / f'res-{s}.jsonl'
        for line in (path.read_text().splitlines() if path.exists() else []):
            r = json.loads(line)
            if 'violation' in r:
                violations.append(r['violation'])
            else:
                finished.add(s)
                done += r['done']
                slowest = max(slowest, r['slowest'])
                counts.update(r['counts'])
                sigs |= set(r['sigs'])
                samples += r['samples']
                if r['error']:
                    errors.append(f'worker {s}: {r["error"]}')
    if len(finished) < n_shards and not violations and not errors:
        errors.append(f'{n_shards - len(finished)} workers ended without a result')
    keys = known_keys(a.pid)
    known_hits = Counter(v['key'] for v in violations if v['key'] in keys)
    new = sorted((v for v in violations if v['key'] not in keys), key=lambda v: v['case'])
    for p_, key, what in known_findings():
        if p_ == a.pid:
            if known_hits[key]:
                print(f'KNOWN-FINDING: property={a.pid} {what} [key={key}, hits={known_hits[key]}]')
    if os.environ.get('MON_ALL'):
        for v in new[:40]:
            print('--', v['case'], v['msg'], short(json.dumps(v['details'], default=short), 1500))
    if new:
        if only is not None:
            v = new[0]
            print(json.dumps(v, indent=1, default=short))
        return report(a, mod, new[0], counts, sigs, samples, done, len(new), t0, evidence)
    if errors:
        for e in errors:
            print(f'INCONCLUSIVE property={a.pid}: {e}', file=sys.stderr)
        for s in range(n_shards):
            t = tail(outdir / f'stderr-{s}.txt', 1500)
            if t:
                print(f'--- stderr of worker {s}:\n{t}', file=sys.stderr)
        return 3
    if only is not None:
        print(f'case {only} of {a.pid} ({a.tier}, seed {a.seed}) holds: {dict(counts)}')
        return 0
    missing = {k: (counts[k], n) for k, n in getattr(mod, 'NEED', {}).items() if counts[k] < n}
    if a.cases is None and (missing or not done or not counts['oracle_checks']):
        print(f'INCONCLUSIVE property={a.pid}: the monitors have not observed enough: {missing}', file=sys.stderr)
        return 3
    write_evidence(a, mod, counts, sigs, samples, done, 0, t0, evidence)
    print(f'OK property={a.pid} tier={a.tier} seed={a.seed} cases={done} distinct={len(sigs)} '
          f'checks={counts["oracle_checks"]} in {time.monotonic() - t0:.1f} s '
          f'(slowest case: {slowest[1]}, {slowest[0]} s of CPU)')
    return 0


def check_import():
    import nlcodec
    where = Path(nlcodec.__file__).resolve()
    if not str(where).startswith(str(REPO.resolve()) + '/'):
        raise HarnessError(f'nlcodec is loaded from {where}, expected {REPO}')


def read_beat(outdir, s):
    try:
        return int((outdir / f'hb-{s}').read_text() or -1)
    except (OSError, ValueError):
        return -1


def tail(path, n=3000):
    try:
        return path.read_text(errors='replace')[-n:]
    except OSError:
        return ''


def write_evidence(a, mod, counts, sigs, samples, done, nviol, t0, evidence):
    level = getattr(mod, 'LEVEL', 'exploration')
    cov = dict(evaluations=done, distinct_nontrivial=len(sigs), rule=getattr(mod, 'RULE', ''),
               samples=samples[:6] or ['(none)'], observed=dict(sorted(counts.items())))
    ev = dict(property=a.pid, tier=a.tier, seed=a.seed, level=level, coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
              wall_s=round(time.monotonic() - t0, 2), violations=nviol)
    evidence.write_text(json.dumps(ev, indent=1, ensure_ascii=True, default=short) + '\n')


def report(a, mod, v, counts, sigs, samples, done, nviol, t0, evidence):
    rep = VERIF / 'replays'
    rep.mkdir(exist_ok=True)
    path = rep / f'{a.pid}-{a.tier}-{a.seed}-{v["case"]}.json'
    path.write_text(json.dumps(dict(property=a.pid, tier=a.tier, seed=a.seed, case=v['case'],
                                    message=v['msg'], details=v['details'],
                                    how=f'./run.sh {a.pid} --replay {path}'), indent=1, default=short))
    write_evidence(a, mod, counts, sigs, samples or [v['msg']], done, max(1, nviol), t0, evidence)
    print(f'property {a.pid}: {v["msg"]}')
    print(f'VIOLATION property={a.pid} replay={path}')
    return 1
