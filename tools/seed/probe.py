#!/usr/bin/env python3
"""Work on the machinery: applies hand-written small changes (probes) one by one, those which build and pass the tests go
through the check of the property they break.   usage: probe.py PROBES.py RESULTS   (inside a box; see box.sh)
PROBES.py defines P = [(property, file, old, new), ...] (file, old and new may be lists of the same length)."""
import os, subprocess, sys, json, runpy, time
assert os.environ.get('BOXED')
R = '/repo/'
for n, (prop, files, olds, news) in enumerate(runpy.run_path(sys.argv[1])['P']):
    subprocess.check_call(['git', '-C', R, 'checkout', '-q', '--', '.'])
    if isinstance(files, str):
        files, olds, news = [files], [olds], [news]
    bad = None
    for f, a, b in zip(files, olds, news):
        s = open(R + f).read()
        if s.count(a) != 1:
            bad = '%s: %d matches of %r' % (f, s.count(a), a)
            break
        open(R + f, 'w').write(s.replace(a, b))
    if not bad:
        t = subprocess.run(['cargo', 'test', '--workspace', '--no-fail-fast', '--offline'], cwd=R, capture_output=True, text=True)
        if t.returncode:
            bad = 'tests: ' + ' | '.join([l for l in (t.stdout + t.stderr).split('\n') if l.startswith('error') or 'FAILED' in l][:3])
    res = {'n': n, 'prop': prop, 'new': news[0][:120]}
    if bad:
        res['bad'] = bad
    else:
        for p in prop.split():
            t0 = time.time()
            c = subprocess.run(['./check.sh', p], cwd='/verif', capture_output=True, text=True, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
            res[p] = c.returncode
            res['t'] = round(time.time() - t0)
            res['why'] = ' '.join((c.stdout + c.stderr).split('\n')[-4:])[:250]
    print(json.dumps(res), flush=True)
    open(sys.argv[2], 'a').write(json.dumps(res) + '\n')
