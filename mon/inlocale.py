"""Runs cases of a check in a new interpreter whose locale is not UTF-8: the files of the toolkit are UTF-8 anyway"""
import json
import os
import subprocess
import sys
import tempfile
from collections import Counter
from pathlib import Path


def c_locale(ctx, n=10):
    """cases of the same check in an interpreter with the C locale; merges what they observe"""
    from mon.core import Violation, HarnessError
    env = {k: v for k, v in os.environ.items() if not k.startswith('LC_') and k not in ('LANG', 'LANGUAGE', 'PYTHONIOENCODING')}
    env.update(LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0', PYTHONWARNINGS='ignore')
    with tempfile.TemporaryDirectory() as tmp:
        out = Path(tmp) / 'res.json'
        r = subprocess.run([sys.executable, '-m', 'mon.inlocale', ctx.pid, ctx.tier, str(ctx.seed), str(ctx.i), str(n), str(out)], env=env,
                           stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        if not out.exists():
            raise HarnessError(f'no result from the other locale: {r.stderr.decode("utf8", "replace")[-2000:]}')
        res = json.loads(out.read_text())
    ctx.counts.update(res['counts'])
    if res['violation']:
        v = res['violation']
        raise Violation(f'[C locale] {v["msg"]}', key=v['key'], sub_case=v['case'], **v['details'])
    ctx.count('c_locale', n)
    ctx.sig('c-locale', ctx.i)


def main(pid, tier, seed, base, n, out):
    import codecs
    import locale
    from mon import core
    core.quiet()
    assert codecs.lookup(locale.getpreferredencoding(False)).name == 'ascii', locale.getpreferredencoding(False)
    core.check_import()
    mod = core.load_check(pid)
    tot, res = Counter(), None
    for j in range(int(n)):
        tmp = Path(tempfile.mkdtemp())
        os.chdir(tmp)
        ctx = core.Ctx(pid, tier, f'{seed}/locale/{base}', j, tmp)
        ctx.c_locale = True
        res = core.run_case(mod, ctx)
        tot.update(ctx.counts)
        if res:
            break
    Path(out).write_text(json.dumps(dict(violation=res, counts=tot), default=core.short))


if __name__ == '__main__':
    main(*sys.argv[1:])
