"""Why3 VC generation and the solver portfolio."""
import os, re, subprocess, shutil, time, hashlib
from concurrent.futures import ThreadPoolExecutor, as_completed

DRIVER = '/usr/share/why3/drivers/z3_487.drv'
ENV = dict(os.environ, LC_ALL='C.UTF-8')
NCPU = int(os.environ.get('VERIF_JOBS', '8'))

PORTFOLIO = [
    ('z3-new', ['z3-new', '-T:3'], 3),
    ('z3-4.8.12', ['z3', '-T:6'], 6),
    ('z3-new/noauto', ['z3-new', '-T:4', 'smt.auto_config=false', 'smt.mbqi=false'], 4),
    ('cvc5', ['cvc5', '--tlimit=8000', '-q'], 8),
    ('z3-new/noauto7', ['z3-new', '-T:15', 'smt.auto_config=false', 'smt.mbqi=false', 'smt.random_seed=7'], 15),
    ('cvc5/enum', ['cvc5', '--tlimit=20000', '-q', '--enum-inst'], 20),
    ('z3-new/long', ['z3-new', '-T:30', 'smt.random_seed=3'], 30),
]
FAST = PORTFOLIO[:4]

def complete(f):
    with open(f, 'rb') as h:
        h.seek(0, 2)
        h.seek(max(0, h.tell() - 40))
        return b'(check-sat)' in h.read()

def is_probe(f):
    """a vacuity probe: a goal about a predicate nothing is known about"""
    with open(f, 'rb') as h:
        h.seek(0, 2)
        h.seek(max(0, h.tell() - 120))
        return b'smoke_probe' in h.read()

def why3_goals(mlw_path, theory, outdir, transf='split_vc', timeout=600, submit=None):
    """returns (list of goal files, error text or None); submit: called with each goal file as soon as it is complete"""
    if os.path.isdir(outdir):
        shutil.rmtree(outdir)
    os.makedirs(outdir)
    conf = os.path.join(os.path.dirname(outdir), 'why3.conf')
    if not os.path.exists(conf):
        open(conf, 'w').write('[main]\nloadpath = "/usr/share/why3/stdlib"\nmagic = 14\n')
    cmd = ['why3', 'prove', mlw_path, '-D', DRIVER, '-T', theory, '-a', transf, '-o', outdir]
    logf = outdir + '.log'
    t0 = time.time()
    def num(f):
        m = re.search(r'(\d*)\.smt2$', f)
        return (re.sub(r'\d*\.smt2$', '', f), int(m.group(1) or 0))
    done = set()
    with open(logf, 'wb') as lf:
        p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=ENV)
        while True:
            try:
                p.wait(0.02 if time.time() - t0 < 1 else 0.3)
            except subprocess.TimeoutExpired:
                if time.time() - t0 > timeout:
                    p.kill()
                    p.wait()
                    return [], 'why3 timed out'
            rc = p.returncode
            if submit:
                fs = sorted((f for f in os.listdir(outdir) if f.endswith('.smt2')), key=num)
                if rc is None:
                    fs = [f for f in fs if f not in done and complete(os.path.join(outdir, f))]
                elif rc != 0:
                    fs = []
                for f in fs:
                    if f not in done:
                        done.add(f)
                        submit(os.path.join(outdir, f))
            if rc is not None:
                break
    out = open(logf, errors='replace').read()
    if rc != 0:
        out = '\n'.join(l for l in out.splitlines() if not l.startswith('Warning'))
        return [], out.strip() or 'why3 failed'
    return sorted((os.path.join(outdir, f) for f in os.listdir(outdir) if f.endswith('.smt2')), key=num), None

class Budget:
    """a deadline for the provers, and a number of refused goals after which the rest need not be tried"""
    def __init__(self, deadline=None, maxfail=None):
        self.deadline, self.maxfail, self.failed = deadline, maxfail, 0
    def over(self):
        return (self.deadline is not None and time.time() > self.deadline) or (self.maxfail is not None and self.failed >= self.maxfail)

NOT_TRIED = 'not tried'

def solve(path, portfolio, budget=None):
    """-> (proved, solver, seconds, log)"""
    t0 = time.time()
    log = []
    if budget is not None and budget.over():
        return False, None, 0.0, [NOT_TRIED]
    for name, cmd, tl in portfolio:
        try:
            r = subprocess.run(cmd + [path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=tl + 15)
            o = r.stdout.decode(errors='replace')
        except subprocess.TimeoutExpired:
            o = 'timeout'
        last = [l.strip() for l in o.splitlines() if l.strip() in ('unsat', 'sat', 'unknown', 'timeout')]
        res = last[-1] if last else ('timeout' if 'timeout' in o or 'interrupted' in o else o.strip()[:80])
        if last and last[-1] == 'unsat' and not (len(o.split('\n')) > 0 and o.startswith('(error') and name != 'z3-4.8.12'):
            return True, name, time.time() - t0, log
        log.append('%s: %s' % (name, res or 'no answer'))
    if budget is not None:
        budget.failed += 1
    return False, None, time.time() - t0, log

def goal_info(path, mlw_lines):
    txt = open(path).read()
    m = re.findall(r';; Goal "(.*)"\n(?:;; .*\n)*?;; File "[^"]*", line (\d+), characters (\d+)-(\d+)', txt)
    line = int(m[-1][1]) if m else 0
    c0, c1 = (int(m[-1][2]), int(m[-1][3])) if m else (0, 0)
    src = mlw_lines[line-1].strip() if 0 < line <= len(mlw_lines) else ''
    cl = None
    # last C line mentioned before that place
    for k in range(line-1, -1, -1):
        mm = re.findall(r'\(\*L(\d+)\*\)', mlw_lines[k] if k < len(mlw_lines) else '')
        if mm:
            cl = int(mm[-1] if k < line-1 else mm[0])
            break
        if mlw_lines[k].startswith('let impl_'):
            break
    expl = re.search(r';; expl: (.*)', txt)
    return line, src, cl

def run_goals(files, portfolio=PORTFOLIO, jobs=NCPU, budget=None):
    res = {}
    with ThreadPoolExecutor(jobs) as ex:
        futs = {ex.submit(solve, f, portfolio, budget): f for f in files}
        for fu in as_completed(futs):
            res[futs[fu]] = fu.result()
    return res
