#!/usr/bin/env python3
"""Small text-level mutants of /repo, tried against the checks (development tool, not a check).

usage: mutate.py [-j N] [-s SCALE] [-f FILE-SUBSTRING] [-n MAX]     results: /tmp/mut/results.jsonl
Prints the mutants no check of the mutated file's list reports. The copies live in /tmp/mut/N.
"""
import json, os, re, subprocess, sys, queue, time, random
from concurrent.futures import ThreadPoolExecutor
W = '/tmp/mut'
jobs, scale, only, limit = 3, '0.15', None, None
args = sys.argv[1:]
while args:
    a = args.pop(0)
    if a == '-j': jobs = int(args.pop(0))
    elif a == '-s': scale = args.pop(0)
    elif a == '-f': only = args.pop(0)
    elif a == '-n': limit = int(args.pop(0))
FILES = {
 'optlib/src/genetic/mod.rs': 'C04 C06 C07 C10 C09 C26 C31 C02 C12 C29 C14 C13 C15 C01 C11',
 'optlib/src/particleswarm/mod.rs': 'C05 C06 C07 C10 C09 C20 C26 C31 C02 C12 C29 C01 C21 C11',
 'optlib/src/genetic/cross/mod.rs': 'C16 C17 C03',
 'optlib/src/genetic/pairing/mod.rs': 'C15 C29 C30',
 'optlib/src/genetic/mutation/mod.rs': 'C18',
 'optlib/src/genetic/creation/vec_float.rs': 'C19',
 'optlib/src/genetic/pre_birth/vec_float.rs': 'C13 C03',
 'optlib/src/genetic/selection/mod.rs': 'C14 C13 C01 C29',
 'optlib/src/genetic/selection/vec_float.rs': 'C13 C29',
 'optlib/src/tools/mod.rs': 'C19',
 'optlib/src/tools/logging/mod.rs': 'C27 C07',
 'optlib/src/tools/statistics/mod.rs': 'C24 C25 C26',
 'optlib/src/tools/stopchecker/mod.rs': 'C08 C10 C29',
 'optlib/src/particleswarm/velocitycalc/mod.rs': 'C20 C21 C30',
 'optlib/src/particleswarm/postmove/mod.rs': 'C23 C03',
 'optlib/src/particleswarm/postvelocitycalc/mod.rs': 'C22',
 'optlib/src/particleswarm/initializing/mod.rs': 'C19',
 'optlib-testfunc/src/lib.rs': 'C28',
 'optlib/src/lib.rs': 'C26',
}
SWAPS = [(' < ', ' <= '), (' <= ', ' < '), (' > ', ' >= '), (' >= ', ' > '), (' == ', ' != '), (' != ', ' == '), (' < ', ' > '),
 (' > ', ' < '), (' && ', ' || '), (' || ', ' && '), (' + ', ' - '), (' - ', ' + '), (' * ', ' / '), (' / ', ' * '), (' += ', ' -= '),
 (' += ', ' = '), (' << ', ' >> '), (' >> ', ' << '), (' & ', ' | '), (' | ', ' & '), (' ^= ', ' |= '), (' ^= ', ' &= '),
 ('true', 'false'), ('false', 'true'), ('Ordering::Less', 'Ordering::Greater'), ('Ordering::Greater', 'Ordering::Less'),
 ('Ordering::Less', 'Ordering::Equal'), ('Ordering::Greater', 'Ordering::Equal'), ('Ordering::Equal', 'Ordering::Less'), ('Ordering::Equal', 'Ordering::Greater'),
 ('min_by', 'max_by'), ('max_by', 'min_by'), ('.is_finite()', '.is_nan()'), ('.is_nan()', '.is_infinite()'), ('continue;', 'break;'), ('break;', '{}'),
 ('personal', 'global'), ('best', 'worst'), ('worst', 'best'), ('parent_1', 'parent_2'), ('parent_2', 'parent_1'),
 ('sign_1', 'sign_2'), ('sign_2', 'sign_1'), ('mantissa_1', 'mantissa_2'), ('exponent_1', 'exponent_2'), ('w_max', 'w_min'), ('w_min', 'w_max'),
 ('current', 'global'), ('global_best', 'current_best'), ('.abs()', ''), ('.sqrt()', ''), ('.signum()', ''), ('.signum()', '.abs()'),
 ('new_inclusive', 'new'), ('Uniform::new(', 'Uniform::new_inclusive('), ('.min(', '.max('), ('.iter()', '.iter().rev()'), ('.iter()', '.iter().skip(1)'),
 ('.iter_mut()', '.iter_mut().rev()'), ('.iter_mut()', '.iter_mut().skip(1)'), ('&mut self.loggers', 'self.loggers.iter_mut().rev()'),
 ('&mut self.loggers', 'self.loggers.iter_mut().take(1)'), ('&mut self.selections', 'self.selections.iter_mut().rev()'),
 ('&mut self.pre_births', 'self.pre_births.iter_mut().rev()'), ('&mut self.post_velocity_calc', 'self.post_velocity_calc.iter_mut().rev()'),
 ('.as_secs() * 1000', '.as_secs() * 100'), ('subsec_millis', 'subsec_micros'), ('!', ''), ('push', 'insert'), ('self.precision', '0'), ('f32', 'f64'), ('f64', 'f32'),
 ('Some(_)', 'None'), ('0..', '1..'), ('cosθ', ''), ('.cos()', '.sin()'), ('.sin()', '.cos()'), ('.sum()', '.max()'), ('retain', 'retain'),
]
def mutants(path):
    src = open('/repo/' + path).read().split('\n')
    out = []
    for n, line in enumerate(src):
        if line.startswith('#[cfg(test)]'): break
        t = line.strip()
        if not t or t.startswith(('//', 'use ', '#', 'pub fn', 'fn ', 'impl', 'pub struct', 'pub trait', 'extern', 'pub mod', 'mod ', 'where', 'type ')): continue
        seen = set()
        def add(new, what):
            if new != line and new not in seen:
                seen.add(new); out.append((path, n + 1, line.strip(), new.strip(), what, new))
        for a, b in SWAPS:
            i = line.find(a)
            while i >= 0:
                if not (a == '!' and line[i + 1:i + 2] in '=('): add(line[:i] + b + line[i + len(a):], f'{a}->{b}')
                i = line.find(a, i + 1)
        for m in re.finditer(r'(?<![\w.])(\d+(?:\.\d+)?)(?=(_?[fiu]\d+)?\b)(?!\.\d)', line):
            v = m.group(1)
            for w in ([str(int(v) + 1), str(int(v) - 1)] if '.' not in v else [str(float(v) + 1), str(float(v) * 0.99)]):
                if w.startswith('-'): continue
                add(line[:m.start(1)] + w + line[m.end(1):], f'{v}->{w}')
        for m in re.finditer(r'\.([01])\b(?!\w)', line):
            add(line[:m.start(1)] + ('1' if m.group(1) == '0' else '0') + line[m.end(1):], 'field')
        if t.endswith(';') and not t.startswith(('let ', 'return', '}', ')', '.')) and t.count('(') == t.count(')'):
            add('', 'delete')
        m = re.match(r'^(\s*)(?:\} else )?if (.*) \{$', line)
        if m and not m.group(2).startswith('let'):
            add(line.replace('if ' + m.group(2), f'if true || ({m.group(2)})'), 'if true')
            add(line.replace('if ' + m.group(2), f'if false && ({m.group(2)})'), 'if false')
    return out
os.makedirs(W, exist_ok=True)
free = queue.Queue()
for n in range(jobs):
    w = f'{W}/{n}'
    os.makedirs(w, exist_ok=True)
    subprocess.check_call(['rsync', '-a', '--delete', '/repo/', w + '/repo/'])
    subprocess.check_call(['rsync', '-a', '--delete', '--exclude', '/target', '--exclude', '/evidence', '/verif/', w + '/verif/'])
    os.makedirs(w + '/verif/evidence', exist_ok=True)
    free.put(n)
def ns(n, cmd, timeout, **env):
    script = f'mount --bind {W}/{n}/repo /repo && mount --bind {W}/{n}/verif /verif && cd /repo && {cmd}'
    p = subprocess.Popen(['unshare', '-Urm', 'bash', '-c', script], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                         start_new_session=True, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', **env))
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL); p.communicate()
        return 'timeout', ''
def one(mu):
    path, no, old, new, what, newline = mu
    n = free.get()
    try:
        f = f'{W}/{n}/repo/{path}'
        src = open('/repo/' + path).read().split('\n')
        src[no - 1] = newline
        open(f, 'w').write('\n'.join(src))
        st = os.stat(f); os.utime(f)
        rc, out = ns(n, 'bash /verif/build.sh', 600)
        if rc != 0: res = 'nobuild'
        else:
            res = 'SURVIVED'; odd = []
            for c in FILES[path].split():
                rc, out = ns(n, f'bash /verif/check.sh {c}', 400, VERIF_SCALE=scale)
                if rc == 1 and f'VIOLATION property={c}' in out: res = 'caught ' + c; break
                if rc != 0: odd.append((c, rc))
            if odd: res += ' odd ' + str(odd)
        open(f, 'w').write(open('/repo/' + path).read()); os.utime(f)
        with open(W + '/results.jsonl', 'a') as r: r.write(json.dumps([path, no, old, new, what, res]) + '\n')
        if 'SURVIVED' in res or 'odd' in res: print(res, f'{path}:{no} [{what}]\n    {old}\n    {new}', flush=True)
    except Exception as e:
        print('ERR', mu[:5], repr(e), flush=True)
    finally:
        free.put(n)
done = set()
if os.path.exists(W + '/results.jsonl'):
    for l in open(W + '/results.jsonl'):
        d = json.loads(l); done.add((d[0], d[1], d[3]))
todo = []
for path in FILES:
    if only and only not in path: continue
    todo += [m for m in mutants(path) if (m[0], m[1], m[3]) not in done]
random.seed(1); random.shuffle(todo)
if limit: todo = todo[:limit]
print(len(todo), 'mutants', flush=True)
with ThreadPoolExecutor(jobs) as ex: list(ex.map(one, todo))
