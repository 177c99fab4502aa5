#!/usr/bin/env python3
"""Tries planted bugs the way vcheck does, several at a time, each in a private mount namespace.

usage: tryseed.py [-j N] [-a] [-t] ID...     (-a: run every check, not only the own one; -t: skip the tests)
"""
import json, os, subprocess, sys, shutil, time
from concurrent.futures import ThreadPoolExecutor
import queue
W = '/tmp/pw'
args = sys.argv[1:]
jobs, allc, notest = 4, False, False
ids = []
while args:
    a = args.pop(0)
    if a == '-j': jobs = int(args.pop(0))
    elif a == '-a': allc = True
    elif a == '-t': notest = True
    else: ids.append(a)
os.makedirs(W + '/results', exist_ok=True)
free = queue.Queue()
for n in range(jobs):
    w = f'{W}/{n}'
    os.makedirs(w, exist_ok=True)
    subprocess.check_call(['rsync', '-a', '--delete', '/repo/', w + '/repo/'])
    subprocess.check_call(['rsync', '-a', '--delete', '--exclude', '/target', '--exclude', '/evidence', '/verif/', w + '/verif/'])
    os.makedirs(w + '/verif/evidence', exist_ok=True)
    free.put(n)

def ns(n, cmd, log, timeout):
    script = f'mount --bind {W}/{n}/repo /repo && mount --bind {W}/{n}/verif /verif && cd /repo && {cmd}'
    with open(log, 'w') as f:
        try:
            return subprocess.run(['unshare', '-Urm', 'bash', '-c', script], stdout=f, stderr=subprocess.STDOUT, timeout=timeout,
                                  env=dict(os.environ, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick')).returncode
        except subprocess.TimeoutExpired:
            return 'timeout'

def one(sid):
    n = free.get()
    try:
        L = f'{W}/results/{sid}'
        shutil.rmtree(L, ignore_errors=True); os.makedirs(L)
        demo = f'{W}/{n}/demo'
        shutil.rmtree(demo, ignore_errors=True); shutil.copytree(f'/verif/seeded/{sid}', demo)
        meta = json.load(open(f'{demo}/meta.json'))
        r = {'id': sid, 'property': meta['property']}
        ns(n, 'git -C /repo checkout -q -- .', L + '/co', 60)
        r['demo_clean'] = ns(n, f'bash {demo}/demo.sh', L + '/demo_clean', 300)
        r['apply'] = ns(n, f'git apply {demo}/patch.diff', L + '/apply', 60)
        if r['apply'] == 0:
            r['demo_bug'] = ns(n, f'bash {demo}/demo.sh', L + '/demo_bug', 300)
            if not notest:
                r['build'] = ns(n, 'bash /opt/vp/build.sh', L + '/build', 900)
                r['tests'] = ns(n, f'bash /opt/vp/test.sh {L}/tests.json', L + '/tests', 1200)
                base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
                res = json.load(open(L + '/tests.json'))
                ok = set(res.get('passed', res if isinstance(res, list) else []))
                r['lost'] = sorted(base - ok)
            props = sorted(json.loads(l)['id'] for l in open('/verif/properties.jsonl')) if allc else [meta['property']]
            r['caught'] = []
            for p in props:
                t = time.time()
                c = ns(n, f'bash /verif/check.sh {p}', f'{L}/check.{p}', 900)
                out = open(f'{L}/check.{p}', errors='replace').read()
                viol = f'VIOLATION property={p}' in out
                if p == meta['property']:
                    r['check'] = c; r['own'] = (c == 1 and viol); r['secs'] = round(time.time() - t)
                elif c not in (0, 1): r.setdefault('odd', []).append((p, c))
                if c == 1 and viol: r['caught'].append(p)
        ns(n, 'git -C /repo checkout -q -- .', L + '/co', 60)
        json.dump(r, open(L + '/result.json', 'w'))
        good = r.get('demo_clean') == 0 and r.get('demo_bug') not in (0, 2, 'timeout', None) and not r.get('lost')
        print(('ok  ' if good else 'BAD '), ('CAUGHT' if r.get('own') else 'MISSED'), json.dumps(r), flush=True)
    except Exception as e:
        print('ERR', sid, repr(e), flush=True)
    finally:
        free.put(n)

with ThreadPoolExecutor(jobs) as ex:
    list(ex.map(one, ids))
