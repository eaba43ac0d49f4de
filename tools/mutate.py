#!/usr/bin/env python3
# mutate.py [-s SCALE] [-w WORKERS] [-n MAX per file] [-f FILE-substring] OUT
# Self-assessment of the checks: makes small textual changes to the library in scratch copies, runs the checks that
# are responsible for the changed file, lists the changes that no check notices (to be read by hand: many are equivalent).
import os, re, sys, subprocess, random, threading, queue, shutil, json, argparse
ap = argparse.ArgumentParser(); ap.add_argument('-s', default='0.15'); ap.add_argument('-w', type=int, default=4); ap.add_argument('-n', type=int, default=1000); ap.add_argument('-f', default=''); ap.add_argument('-j', default='2'); ap.add_argument('-seed', type=int, default=1); ap.add_argument('out')
A = ap.parse_args()
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = 'include/boost/fiber/'
MAP = {
 'src/barrier.cpp': 'C05', 'src/condition_variable.cpp': 'C04', I+'condition_variable.hpp': 'C04 C03 C23',
 'src/context.cpp': 'C12 C14 C15 C18 C17 C19 C16 C04', 'src/fiber.cpp': 'C12', 'src/future.cpp': 'C10',
 'src/mutex.cpp': 'C01 C02', 'src/recursive_mutex.cpp': 'C01 C02', 'src/timed_mutex.cpp': 'C01 C02 C03', 'src/recursive_timed_mutex.cpp': 'C01 C02 C03',
 'src/properties.cpp': 'C17', 'src/scheduler.cpp': 'C12 C14 C13 C18 C17 C16 C19', 'src/waker.cpp': 'C04 C03 C02 C09 C10',
 'src/algo/algorithm.cpp': 'C17 C16', 'src/algo/round_robin.cpp': 'C13 C18 C24', 'src/algo/shared_work.cpp': 'C24 C16', 'src/algo/work_stealing.cpp': 'C24 C16', 'src/numa/algo/work_stealing.cpp': 'C24 C16',
 'src/numa/linux/topology.cpp': 'C21', 'src/numa/linux/pin_thread.cpp': 'C21',
 I+'buffered_channel.hpp': 'C06 C07 C20 C23', I+'unbuffered_channel.hpp': 'C08 C09 C20 C23', I+'waker.hpp': 'C04 C03', I+'context.hpp': 'C12 C19 C23 C16', I+'scheduler.hpp': 'C12 C17',
 I+'fiber.hpp': 'C12 C13 C17', I+'fss.hpp': 'C15', I+'operations.hpp': 'C12 C14 C17', I+'properties.hpp': 'C17', I+'policy.hpp': 'C13',
 I+'detail/convert.hpp': 'C03', I+'detail/context_spinlock_queue.hpp': 'C16 C22', I+'detail/context_spmc_queue.hpp': 'C22', I+'detail/fss.hpp': 'C15', I+'detail/data.hpp': 'C12',
 I+'detail/spinlock.hpp': 'C22', I+'detail/spinlock_ttas.hpp': 'C22', I+'detail/spinlock_ttas_adaptive.hpp': 'C22', I+'detail/spinlock_ttas_futex.hpp': 'C22', I+'detail/spinlock_ttas_adaptive_futex.hpp': 'C22', I+'detail/futex.hpp': 'C22', I+'detail/thread_barrier.hpp': 'C16',
 I+'future/async.hpp': 'C11 C23', I+'future/future.hpp': 'C10', I+'future/promise.hpp': 'C10 C23', I+'future/packaged_task.hpp': 'C11 C23', I+'future/detail/shared_state.hpp': 'C10 C23', I+'future/detail/shared_state_object.hpp': 'C10 C19', I+'future/detail/task_base.hpp': 'C11', I+'future/detail/task_object.hpp': 'C11 C23',
 I+'algo/round_robin.hpp': 'C13', I+'algo/shared_work.hpp': 'C16', I+'algo/work_stealing.hpp': 'C16', I+'algo/algorithm.hpp': 'C17', I+'barrier.hpp': 'C05', I+'mutex.hpp': 'C01', I+'timed_mutex.hpp': 'C01 C03', I+'recursive_mutex.hpp': 'C01', I+'recursive_timed_mutex.hpp': 'C01 C03',
}
def mutants(path):
    L = open('/repo/' + path).read().split('\n'); out = []; skip = 0; pp = False
    def add(i, new, op): out.append((i, new, op))
    for i, l in enumerate(L):
        s = l.strip()
        if s.startswith('#') or pp: pp = l.endswith('\\'); continue
        if not s or s.startswith('//') or s.startswith('*') or 'BOOST_ASSERT' in s: continue
        code = l.split('//')[0].rstrip()
        decl = re.match(r'^(typedef|using|template|friend|namespace|class|struct|public|private|protected|explicit|virtual|inline|static|bool|void|extern)\b', s)
        indent = len(l) - len(l.lstrip())
        if code.endswith(';') and not decl and not re.search(r'(=\s*default|=\s*delete)\s*;', s) and indent >= 4 and code.count('(') == code.count(')'):
            prev = L[i-1].split('//')[0].rstrip()
            if prev.endswith((';', '{', '}', ':')) : add(i, [], 'delete')
        m = re.match(r'^(\s*)(\} else )?(if|while) \( (.*)\) \{\s*$', code)
        if m:
            c = m.group(4)
            add(i, ['%s%s%s ( ! ( %s) ) {' % (m.group(1), m.group(2) or '', m.group(3), c)], 'negate')
            if m.group(3) == 'if': add(i, ['%s%sif ( false && ( %s) ) {' % (m.group(1), m.group(2) or '', c)], 'never'); add(i, ['%s%sif ( true || ( %s) ) {' % (m.group(1), m.group(2) or '', c)], 'always')
            for op in (' && ', ' || '):
                if op in c:
                    a, b = c.split(op, 1); o2 = ' || ' if op == ' && ' else ' && '
                    add(i, [l.replace(op, o2, 1)], 'andor')
        for a, b in ((' < ', ' <= '), (' <= ', ' < '), (' > ', ' >= '), (' >= ', ' > '), (' == ', ' != '), (' != ', ' == '), ('notify_one', 'notify_all'), ('notify_all', 'notify_one'), ('true', 'false'), ('false', 'true'), (' + 1', ''), (' - 1', ''), ('++', '--'), ('--', '++'), ('.push_back', '.push_front'), ('.front', '.back'), ('pop_front', 'pop_back'), ('launch::post', 'launch::dispatch'), ('launch::dispatch', 'launch::post'), ('std::move( ', '( '), ('compare_exchange_strong', 'load'), ('memory_order_acq_rel', 'memory_order_acq_rel'), ('::closed', '::success'), ('::timeout', '::success'), ('::full', '::timeout'), ('::empty', '::timeout'), ('nullptr', 'nullptr')):
            if a == b or a not in code or code.lstrip().startswith('template'): continue
            if a in (' < ', ' > ') and re.search(r'<\s*\w.*>', code): continue
            if a == 'notify_all' and not '.' in code and not '->' in code: continue
            for k in [x.start() for x in re.finditer(re.escape(a), code)][:2]:
                add(i, [code[:k] + b + code[k+len(a):]], a + '->' + b)
        # swap with the next statement
        if i + 1 < len(L):
            n = L[i+1]; nc = n.split('//')[0].rstrip()
            if code.endswith(';') and nc.endswith(';') and not decl and len(n) - len(n.lstrip()) == indent and indent >= 8 and not s.startswith(('return', 'throw', 'break', 'continue', 'BOOST_ASSERT')) and not n.strip().startswith(('return', 'throw', 'break', 'continue', 'BOOST_ASSERT')):
                add(i, [n, l, None], 'swap')
    return L, out
jobs = {}
rnd = random.Random(A.seed)
for f in MAP:
    if A.f and not any(x in f for x in A.f.split(',')): continue
    if not os.path.exists('/repo/' + f): print('missing', f); continue
    L, m = mutants(f); rnd.shuffle(m); jobs[f] = (L, m[:A.n])
print({f: len(m) for f, (L, m) in jobs.items()}, sum(len(m) for L, m in jobs.values())); sys.stdout.flush()
outq = open(A.out, 'a'); lock = threading.Lock()
todo = queue.Queue()
for f in sorted(jobs, key=lambda f: -len(jobs[f][1])):
    ms = jobs[f][1]
    for k in range(0, len(ms), 25): todo.put((f, k, ms[k:k+25]))
def worker(w):
    D = '/dev/shm/mut/%d' % w; os.makedirs(D, exist_ok=True); R = D + '/repo'
    subprocess.run(['rsync', '-a', '--delete', '/repo/include', '/repo/src', R + '/'] if shutil.which('rsync') else ['bash', '-c', f'rm -rf {R}; mkdir -p {R}; cp -r /repo/include /repo/src {R}/'])
    os.makedirs(D + '/w/out', exist_ok=True); os.makedirs(D + '/w/evidence', exist_ok=True); shutil.copy(H + '/known-findings.txt', D + '/w/')
    env = dict(os.environ, VERIF_REPO=R, VERIF_ROOT=D + '/w')
    while True:
        try: f, k, ms = todo.get_nowait()
        except queue.Empty: return
        L = jobs[f][0]
        for i, new, op in ms:
            if new and new[-1] is None: T = L[:i] + new[:-1] + L[i+2:]
            else: T = L[:i] + new + L[i+1:]
            open(R + '/' + f, 'w').write('\n'.join(T)); res = None
            for c in MAP[f].split():
                if c == 'C22':
                    p = subprocess.run(['timeout', '800', H + '/scn/C22.sh', '--seed', '1', '--no-shrink', '--scale', A.s], env=dict(env, VERIF_BUILD=D + '/b-C22', VERIF_TIER='quick', VERIF_EVIDENCE='/dev/null'), capture_output=True, text=True, errors='replace')
                    if p.returncode == 1: res = 'C22'; break
                    if 'does not' in p.stdout + p.stderr and 'build' in p.stdout + p.stderr: res = 'build'; break
                    continue
                b = subprocess.run(['make', '-s', '-f', H + '/rt/Makefile', '-j2', 'HERE=' + H, 'REPO=' + R, 'OUT=' + D + '/b-' + c, 'SCN=' + c, 'NUMA=' + ('1' if c in ('C16', 'C21') else ''), 'EXTRA=', D + '/b-' + c + '/' + c], capture_output=True, text=True) if os.path.isdir(D + '/b-' + c) or not os.makedirs(D + '/b-' + c) else None
                if b.returncode: res = 'build'; break
                p = subprocess.run(['timeout', '400', D + '/b-' + c + '/' + c, '--root', D + '/w', '--seed', '1', '--no-shrink', '--jobs', A.j, '--scale', A.s], env=dict(env, VERIF_TIER='quick'), capture_output=True, text=True, errors='replace')
                if p.returncode == 1: res = c; break
                if p.returncode == 124: res = 'hang ' + c; break
            with lock:
                outq.write(json.dumps(dict(file=f, line=i + 1, op=op, old=L[i].strip(), res=res)) + '\n'); outq.flush()
        shutil.copy('/repo/' + f, R + '/' + f)
ts = [threading.Thread(target=worker, args=(w,)) for w in range(A.w)]
[t.start() for t in ts]; [t.join() for t in ts]
