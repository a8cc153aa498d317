#!/usr/bin/env python3
"""Work on the machinery: random small changes of the code, those which build and pass the tests go through the checks.
usage: mutants.py SEED COUNT RESULTS [FILE-SUBSTRING]   (inside a box: /repo and /verif are copies; see box.sh)"""
import os, random, re, subprocess, sys, time, json
seed, count, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
only = sys.argv[4] if len(sys.argv) > 4 else ''
R = '/repo/'
assert os.environ.get('BOXED')
files = subprocess.run(['git', '-C', R, 'ls-files', 'compiler/src', 'runtime/src'], capture_output=True, text=True).stdout.split()
files = [f for f in files if f.endswith('.rs') and 'swift' not in f and only in f]
ORDER = [
    ('runtime/src/codec', 'R01 R02 S01 S03 S07 M02'),
    ('runtime/src/util', 'R03 R01 R02 M02 M01 S01'),
    ('runtime/src/message', 'R03 L01 L02 M01 M03 M05 M06 M07 M08 M09 S08 U02'),
    ('compiler/src/compiler/structure', 'C01 S01 S02 S03 S04 S05 S06 S07 S08 C02 C04 C06'),
    ('compiler/src/compiler/message', 'C01 M02 M03 M05 U01 C02 C04 C06 L01'),
    ('compiler/src/compiler/union', 'U01 U02 C02 C01 C04 C06'),
    ('compiler/src/compiler/enum', 'S05 C02 C03 C01 C06'),
    ('compiler/src/compiler', 'C01 C04 C02 C03 C06 S05 M02 L01'),
    ('compiler/src/gen/template', 'T01 C01 M02'),
    ('compiler/src/gen/rust/struct', 'C01 S01 S02 S03 S04 S05 S06 S07 S08 C04'),
    ('compiler/src/gen/rust/union', 'C01 U01 U02 C05 C03'),
    ('compiler/src/gen/rust/message', 'C01 M01 M02 M03 M05 M06 M07 M09 L01 L02 C05'),
    ('compiler/src/gen/rust', 'C01 C05 C03 M02 S01 C04 S05 S06 S07'),
    ('compiler/src/gen/base', 'C01 S01 S02 S03 S04 S07 S08 M02 M05 C04 C05'),
    ('compiler/src/gen/mod', 'C05 C03 C01'),
    ('compiler/src/model', 'C02 C06 C01 M02 S01 C03'),
    ('compiler/src', 'C05 C03 C06 C04 C01 C02'),
]
OPS = [
    (r' == ', [' != ']), (r' != ', [' == ']), (r' < ', [' <= ']), (r' > ', [' >= ']), (r' <= ', [' < ', ' == ']), (r' >= ', [' > ', ' == ']),
    (r' && ', [' || ']), (r' \|\| ', [' && ']), (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' + ']), (r' / ', [' * ']), (r' % ', [' / ']),
    (r' << ', [' >> ']), (r' >> ', [' << ']), (r' & ', [' | ']), (r' \| ', [' & ']), (r' \+= ', [' = ', ' -= ']),
    (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\.is_some\(\)', ['.is_none()']), (r'\.is_none\(\)', ['.is_some()']),
    (r'\.is_empty\(\)', ['.is_empty() == false']), (r'\bif !', ['if ']), (r'\bif (?!let)', ['if !', 'if false && ', 'if true || ']),
    (r'(?<![\w.])\d+(?![\w.])', ['N+1', 'N-1', '0']), (r'\b(8|16|32|64)\b', ['N*2']),
    (r'\.min\(', ['.max(']), (r'\.max\(', ['.min(']), (r'\.any\(', ['.all(']), (r'\.all\(', ['.any(']), (r'\.first\(\)', ['.last()']), (r'\.last\(\)', ['.first()']),
    (r'_le\b', ['_be']), (r'_be\b', ['_le']), (r'\bLE\b', ['BE']), (r'\bBE\b', ['LE']), (r'Little\b', ['Big']), (r'Big\b', ['Little']),
    (r'\.rev\(\)', ['']), (r'\.skip\((\w+)\)', ['']), (r'\bOk\(None\)', ['DEL']), (r'^\s+return [^;]*;', ['DEL']), (r'^\s+[\w.]+\([^;]*\)\??;\s*$', ['DEL']),
    (r'^\s+[\w.\[\]]+ [-+]?= [^;]*;\s*$', ['DEL']), (r'FileType::\w+', ['FileType::Message', 'FileType::Structure', 'FileType::MessageReading']),
    (r'"(\w+)"', ['SWAPSTR']),
]
sites = []
for f in files:
    t = open(R + f).read().split('\n')
    for i, l in enumerate(t):
        if '#[cfg(test)]' in l:
            break
        if re.search(r'=> "', l) or l.lstrip().startswith('//') or l.lstrip().startswith('use ') or l.lstrip().startswith('#['):
            continue
        for p, subs in OPS:
            for m in re.finditer(p, l):
                for s in subs:
                    sites.append((f, i, m.start(), m.end(), s))
r = random.Random(seed)
# Every file as often as the square root of its number of sites.
by = {}
for s in sites:
    by.setdefault(s[0], []).append(s)
names = sorted(by)
done = set()
res = open(out, 'a')
def sh(c, t=900):
    p = subprocess.Popen(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        p.communicate(timeout=t)
        return p
    except subprocess.TimeoutExpired:
        # A mutant may loop for ever while it is built or tested.
        os.killpg(p.pid, 9)
        p.communicate()
        return None
base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()
n = 0
while n < count:
    f = r.choices(names, [len(by[x]) ** 0.5 for x in names])[0]
    s = r.choice(by[f])
    if s in done:
        continue
    done.add(s)
    _, i, a, b, sub = s
    t = open(R + f).read().split('\n')
    old = t[i]
    piece = old[a:b]
    if sub == 'DEL':
        new = ''
    elif sub == 'SWAPSTR':
        new = old[:a] + '"' + piece[1:-1][::-1] + '"' + old[b:]
    elif sub in ('N+1', 'N-1', 'N*2'):
        k = int(piece)
        if sub == 'N-1' and k == 0:
            continue
        new = old[:a] + str(k + 1 if sub == 'N+1' else k - 1 if sub == 'N-1' else 2 * k) + old[b:]
    else:
        new = old[:a] + sub + old[b:]
    if new == old:
        continue
    t[i] = new
    open(R + f, 'w').write('\n'.join(t))
    try:
        x = sh('bash /opt/vp/build.sh', 200)
        if x is None or x.returncode != 0:
            continue
        x = sh('rm -f /tmp/mut/t.json; bash /opt/vp/test.sh /tmp/mut/t.json', 300)
        if x is None or x.returncode not in (0, 1):
            continue
        tj = json.load(open('/tmp/mut/t.json'))
        if not base <= set(tj.get('passed', [])):
            continue
        n += 1
        order = next(o for p, o in ORDER if f.startswith(p)).split()
        rest = ['C01', 'M01', 'M02', 'S01', 'C02', 'C04', 'C03', 'C05', 'C06', 'U01', 'L01', 'R03', 'T01'] if os.environ.get('MUT_ALL') else []
        hit = None
        log = []
        for p in order + [q for q in rest if q not in order]:
            t0 = time.time()
            x = sh('cd /verif && VERIF_SEED=%d VERIF_TIER=quick ./check.sh %s' % (1 + n % 3, p))
            rc = 'timeout' if x is None else x.returncode
            log.append('%s:%s' % (p, rc))
            if rc != 0:
                hit = p
                break
        res.write(json.dumps(dict(file=f, line=i + 1, old=old.strip(), new=new.strip(), hit=hit, log=log)) + '\n')
        res.flush()
    finally:
        t[i] = old
        open(R + f, 'w').write('\n'.join(t))
