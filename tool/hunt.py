"""Search for a failing input of a property against the real code (and bounded stand-in).

A harness /verif/hunt/<name>.c is compiled with the C files of /repo's current tree
(address and undefined-behaviour sanitizers on) and run in a scratch directory."""
import os, subprocess, shutil, re, time, glob
from concurrent.futures import ThreadPoolExecutor
import cast

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CFLAGS = ['-g', '-O1', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']

def compile_harness(name, wd):
    """-> command prefix (list), error"""
    src = os.path.join(cast.REPO, 'src')
    py = os.path.join(VERIF, 'hunt', name + '.py')
    if os.path.exists(py):
        return compile_program(src, os.path.join(wd, 'hbuild'), py)
    h = os.path.join(VERIF, 'hunt', name + '.c')
    txt = open(h).read()
    m = re.search(r'INCLUDES:\s*(.*)', txt)
    inc = m.group(1).split() if m else []
    bd = os.path.join(wd, 'hbuild')
    os.makedirs(bd, exist_ok=True)
    files = [f for f in sorted(os.listdir(src)) if f.endswith('.c') and f not in inc]
    def cc(f):
        o = os.path.join(bd, f[:-2] + '.o')
        ex = ['-Dmain=mm_main_'] if f == 'metamath.c' else []
        r = subprocess.run(['gcc'] + CFLAGS + ex + ['-I', src, '-c', os.path.join(src, f), '-o', o], stderr=subprocess.PIPE)
        return f, r.returncode, r.stderr.decode(errors='replace')
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(cc, files))
    for f, rc, err in rs:
        if rc:
            return None, 'compiling %s: %s' % (f, err[:300])
    exe = os.path.join(bd, name)
    r = subprocess.run(['gcc'] + CFLAGS + ['-I', src, '-I', os.path.join(VERIF, 'hunt'), h] + [os.path.join(bd, f[:-2] + '.o') for f in files] + ['-o', exe, '-lm'],
                       stderr=subprocess.PIPE)
    if r.returncode:
        return None, 'linking: ' + r.stderr.decode(errors='replace')[:500]
    return [exe], None

def compile_program(src, bd, py):
    """the whole program, for a harness that drives it from outside"""
    os.makedirs(bd, exist_ok=True)
    files = [f for f in sorted(os.listdir(src)) if f.endswith('.c')]
    def cc(f):
        r = subprocess.run(['gcc'] + CFLAGS + ['-I', src, '-c', os.path.join(src, f), '-o', os.path.join(bd, f[:-2] + '.o')], stderr=subprocess.PIPE)
        return f, r.returncode, r.stderr.decode(errors='replace')
    with ThreadPoolExecutor(8) as ex:
        for f, rc, err in ex.map(cc, files):
            if rc:
                return None, 'compiling %s: %s' % (f, err[:300])
    exe = os.path.join(bd, 'metamath')
    r = subprocess.run(['gcc'] + CFLAGS + [os.path.join(bd, f[:-2] + '.o') for f in files] + ['-o', exe, '-lm'], stderr=subprocess.PIPE)
    if r.returncode:
        return None, 'linking: ' + r.stderr.decode(errors='replace')[:500]
    return ['python3', py, exe], None

def run(pid, P, seed, budget, wd):
    name = P.get('hunt')
    out = {'fail': None, 'evaluations': 0, 'bound': '', 'cmd': '', 'note': ''}
    if not name:
        out['note'] = 'no harness'
        return out
    exe, err = compile_harness(name, wd)
    if err:
        out['note'] = err
        return out
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_abort=1', HUNT_KNOWN=','.join(P.get('known', [])), UBSAN_OPTIONS='print_stacktrace=0', LC_ALL='C')
    n = 8
    procs = []
    for i in range(n):
        rd = os.path.join(wd, 'run%d' % i)
        os.makedirs(rd, exist_ok=True)
        p = subprocess.Popen(exe + [P.get('hunt_mode', pid), str(seed * 1000 + i), str(budget)], cwd=rd, env=env,
                             stdin=subprocess.DEVNULL, stdout=open(os.path.join(rd, 'out'), 'wb'), stderr=open(os.path.join(rd, 'err'), 'wb'))
        procs.append((i, rd, p))
    end = time.time() + budget * 2 + 60
    while time.time() < end and any(p.poll() is None for _, _, p in procs):
        if any(p.poll() == 1 for _, _, p in procs):      # a failing input was found
            time.sleep(0.3)
            for _, _, p in procs:
                if p.poll() is None:
                    p.terminate()
            break
        time.sleep(0.1)
    for i, rd, p in procs:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
    for i, rd, p in procs:
        o = open(os.path.join(rd, 'out'), 'rb').read().decode(errors='replace')
        e = open(os.path.join(rd, 'err'), 'rb').read().decode(errors='replace')
        m = re.search(r'(?m)^HUNT evaluations=(\d+) bound=(.*)$', o)
        if m:
            out['evaluations'] += int(m.group(1))
            out['bound'] = m.group(2)
        fm = re.search(r'(?ms)^HUNTFAIL(?:\[(\S+)\])? (.*?)(?:^HUNTEND|\Z)', o)
        em = re.search(r'(?ms)^HUNTFAIL(?:\[(\S+)\])? (.*?)(?:^HUNTEND|\Z)', e)
        f = fm or em
        if f and not out['fail']:
            out['fail'] = {'key': f.group(1), 'text': (f.group(2).strip() + '\n' + e[-1500:])[:4000]}
            out['cmd'] = 'hunt harness %s, mode %s, seed %d' % (name, P.get('hunt_mode', pid), seed * 1000 + i)
        elif not m and not out['fail'] and p.returncode not in (0, None, -15):
            out['note'] += 'run %d ended with %s without a verdict: %s ' % (i, p.returncode, e[-300:])
    return out
