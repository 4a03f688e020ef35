"""Differential harness for proof verification: random databases, the program against mmref."""
import sys, os, time, random, subprocess, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mmref
from mmref import Bad

exe, mode, seed, budget = sys.argv[1], sys.argv[2], int(sys.argv[3]), float(sys.argv[4])
KNOWN = [k for k in os.environ.get('HUNT_KNOWN', '').split(',') if k]
end = time.time() + budget
evals = 0

def fail(why, case, key=None):
    if key in KNOWN: return
    print('\nHUNTFAIL%s %s\ncase: %s\nHUNTEND' % ('[%s]' % key if key else '', why, case[:6000]))
    sys.stdout.flush()
    sys.exit(1)

def run(cmds, timeout=30):
    p = subprocess.run([exe] + cmds, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return p.returncode, p.stdout.decode('latin1'), p.stderr.decode('latin1')

def relabel(r, g, tree, here):
    """break a proof tree / RPN list at random"""
    p = mmref.rpn(tree)
    k = r.randrange(10)
    tw = [i for i, x in enumerate(p) if x in g.twin]
    if k >= 7 and tw: i = r.choice(tw); p[i] = g.twin[p[i]]; return p
    k %= 7
    pool = [a['label'] for a in g.asrt] + list(g.fl.values())
    if k == 0: p[r.randrange(len(p))] = r.choice(pool)
    elif k == 1 and len(p) > 1: i = r.randrange(len(p) - 1); p[i], p[i + 1] = p[i + 1], p[i]
    elif k == 2: del p[r.randrange(len(p))]
    elif k == 3: p.insert(r.randrange(len(p) + 1), r.choice(pool))
    elif k == 4: p[r.randrange(len(p))] = here
    elif k == 5: i = r.randrange(len(p)); p[i:] = p[i:] + p[i:]
    else:
        # another label of the same arity
        i = r.randrange(len(p)); ar = {a['label']: len(a['hyps']) for a in g.asrt}
        c = [x for x in pool if ar.get(x, 0) == ar.get(p[i], 0) and x != p[i]]
        if c: p[i] = r.choice(c)
    return p

def make(r):
    g = mmref.Gen(r)
    g.dropd = 0.3 if mode == 'V03' else 0.1
    g.axd = 0.8 if mode == 'V03' else 0.4
    g.dummy = mode == 'V03' and r.random() < 0.8
    g.build(nthm=r.randint(3, 16))
    for l, t in g.thms.items():
        class S: pass
        s = S(); s.hyps = [type('H', (), dict(label=h[1])) for h in t['hyps']]
        math = list(t['math'])
        tree = t['tree']
        mut = r.random() < (0.08 if mode in ('V02', 'V04') else 0.45)
        style = r.random()
        pr = None
        if mut:
            k = r.random()
            if k < 0.55: pr = relabel(r, g, tree, l)
            elif k < 0.7:   # the statement says something else
                i = r.randrange(len(math)); math[i] = r.choice(g.consts + g.vars)
                if math[0] not in g.consts: math = list(t['math'])
            elif k < 0.9:   # compressed letters
                pr = mmref.encode(tree, s, None, r)
                j = pr.index(')'); body = list(''.join(pr[j + 1:])); i = r.randrange(len(body))
                q = r.random()
                if q < 0.5: body[i] = r.choice('ABCDEFGHIJTUVYZ')
                elif q < 0.7: del body[i]
                elif q < 0.9: body.insert(i, r.choice('ABCDUZ'))
                elif q < 0.95: body[i:i] = r.choice('UVWXY') * r.choice((2, 3, 25, 29, 40, 70))
                elif j > 1: pr[r.randrange(1, j)] = r.choice([a['label'] for a in g.asrt])
                pr = pr[:j + 1] + ([''.join(body)] if body else [])
        unk = not mut and r.random() < (0.25 if mode == 'V04' else 0.05)
        if unk:
            def hole(t):
                if not t[2] or r.random() < 0.3: return ('l', '?', [])
                c = list(t[2]); i = r.randrange(len(c)); c[i] = hole(c[i]); return (t[0], t[1], c)
            tree = hole(tree)
        if pr is None:
            pr = mmref.rpn(tree) if style < 0.5 else mmref.encode(tree, s, None, r, save=r.random() < 0.8)
        g.lines[t['pos']] = '  %s $p %s $= %s $.' % (l, ' '.join(math), ' '.join(pr))
        t['math2'] = math
        t['full'] = None if mut else mmref.rpn(t['tree'])
    return g, '\n'.join(g.lines) + '\n'

def expected(text):
    labels, order, consts = mmref.parse(text)
    exp = {}
    for s in order:
        if s.typ != 'p': continue
        try: exp[s.label] = mmref.check(s, labels, consts)
        except Bad as e: exp[s.label] = 'bad:' + str(e)
    return labels, exp

def dubious(s, labels, verdict):
    """cases on which we do not judge the program"""
    if s.proof and s.proof[0] == '(':
        k = s.proof.index(')')
        ref = s.proof[1:k]
        if len(set(ref)) != len(ref): return True       # repeated label in the list
        if any(x in [h.label for h in s.hyps] for x in ref): return True
        body = ''.join(s.proof[k + 1:])
        if 'ZZ' in body: return True
        if 'UV' in body and 'UU' not in body: return True    # read as the obsolete compression
        try: st = mmref.decode(s, labels)
        except Bad: return False
        used = set(o[1] for o in st if o[0] == 'l')
        if verdict in ('ok', '?') and any(x not in used for x in ref): return True
        if verdict in ('ok', '?'):
            nz = sum(1 for o in st if o[0] == 'z'); nb = set(o[1] for o in st if o[0] == 'b')
            if nz != len(nb): return True
            for a, b in zip(st, st[1:]):
                if b[0] == 'z' and a[0] in ('b', '?'): return True
                if b[0] == 'z' and a[0] == 'l' and labels[a[1]].typ in 'fe': return True
                if b[0] == 'z' and a[0] == 'l' and not labels[a[1]].hyps: return True
    return False

def norm(t): return re.sub(r'\s+', ' ', t)

def one(seed):
    global evals
    r = random.Random(seed)
    g, text = make(r)
    try: labels, exp = expected(text)
    except Bad as e: return      # the generator produced an ill-formed database
    if not exp: return
    open('db.mm', 'w').write(text)
    case = 'db.mm:\n%s\ncommands: read db.mm / verify proof *' % text
    try: rc, out, err = run(['read db.mm', 'verify proof *', 'exit'])
    except subprocess.TimeoutExpired: fail('verify proof * does not terminate (30 s)', case)
    evals += len(exp)
    if 'ERROR: AddressSanitizer' in err or 'runtime error' in err: fail('sanitizer error: ' + err[:600], case)
    if rc != 0 or '?BUG CHECK' in out: fail('the program ended with code %d: %s' % (rc, out[-500:]), case)
    pre, _, ver = out.partition('MM> verify proof *')
    if 'No errors were found' not in norm(pre): return
    v = norm(ver)
    errs = set(re.findall(r'label "([^"]+)", type "\$p"', v))
    derrs = set(b[:b.index('"')] for b in v.split('label "')[1:] if 'isjoint' in b or '$d' in b)
    warned = set()
    m = re.search(r'not proved: (.*?)( All proofs in| MM> exit)', v)
    if m: warned = set(x.strip() for x in m.group(1).split(','))
    allok = 'All proofs in the database were verified' in v
    sure = True
    for l, e in exp.items():
        s = labels[l]
        if dubious(s, labels, e): sure = False; continue
        dis = e == 'bad:disjoint'
        if mode == ('V03' if dis else 'V01') and e.startswith('bad') and l not in errs and l not in warned:
            fail('the proof of %s is wrong (%s) but no error is reported for it' % (l, e[4:]), case)
        if e == '?' and l in errs:      # the program may draw conclusions from the known steps
            f = g.thms.get(l, {}).get('full')
            try: f = f and mmref.check(s, labels, mmref.parse(text)[2], [('l', x) for x in f])
            except Bad: f = None
            if f != 'ok': continue
        if e in ('ok', '?') and l in errs and mode == ('V03' if l in derrs else 'V02'):
            fail('the proof of %s is correct%s but an error is reported:\n%s' % (l, ' as far as it goes' if e == '?' else '', ver[:1500]), case)
        if mode == 'V04' and l not in errs and ((e == '?' and l not in warned) or (e == 'ok' and l in warned)):
            fail('the proof of %s is %s but the list of unproved statements is %s' % (l, 'incomplete' if e == '?' else 'complete', sorted(warned)), case)
    if mode != 'V04': return
    hard = set(l for l, e in exp.items() if l in errs)
    if allok and (errs or warned):
        onlyd = not warned and all(exp[l] == 'bad:disjoint' for l in errs if l in exp)
        fail('"All proofs in the database were verified" although %s' % ('errors were reported for ' + ', '.join(sorted(errs)) if errs else 'some are incomplete'), case,
             'summary-after-disjoint-violation' if onlyd else None)
    if not allok and not errs and not warned:
        fail('no error, no incomplete proof, but the final line is missing', case)

def legacy():
    es = ' '.join('e%d $e |- %s $.' % (i, 'q' if i == 140 else 'p') for i in range(1, 141))
    text = '$c |- wff $. $v p q $. wp $f wff p $. wq $f wff q $.\n%s\nth $p |- %s $= ( ) %s $.\n' % (es, 'p', 'UUT')
    for goal, pr in (('p', 'UUT'), ('q', 'UVB')):
        text = '$c |- wff $. $v p q $. wp $f wff p $. wq $f wff q $.\n%s\nth $p |- %s $= ( ) %s $.\n' % (es, goal, pr)
        labels, exp = expected(text)
        open('db.mm', 'w').write(text)
        rc, out, err = run(['read db.mm', 'verify proof *', 'exit'])
        if exp['th'] == 'ok' and 'All proofs in the database were verified' not in norm(out):
            fail('a correct proof with more than 140 labels is rejected: ' + out[-800:], text, 'legacy-compression-heuristic' if pr[:2] == 'UV' else None)

def verify(text, tag):
    global evals
    labels, exp = expected(text)
    open('db.mm', 'w').write(text)
    case = 'db.mm:\n%s\ncommands: read db.mm / verify proof *' % (text if len(text) < 5000 else text[:1500] + '\n...\n' + text[-3000:])
    try: rc, out, err = run(['read db.mm', 'verify proof *', 'exit'])
    except subprocess.TimeoutExpired: fail('verify proof * does not terminate (30 s)', case)
    if 'ERROR: AddressSanitizer' in err or 'runtime error' in err: fail('sanitizer error: ' + err[:600], case)
    if rc != 0 or '?BUG CHECK' in out: fail('the program ended with code %d: %s' % (rc, out[-500:]), case)
    pre, _, ver = out.partition('MM> verify proof *')
    v = norm(ver)
    errs = set(re.findall(r'label "([^"]+)", type "\$p"', v))
    evals += len(exp)
    for l, e in exp.items():
        if dubious(labels[l], labels, e): continue
        if e == 'ok' and l in errs and mode in ('V02', 'V03'): fail('%s: the proof of %s is correct but an error is reported: %s' % (tag, l, ver[-1500:]), case)
        if e.startswith('bad') and l not in errs and mode in ('V01', 'V03'): fail('%s: the proof of %s is wrong (%s) but no error is reported' % (tag, l, e), case)

def num(m):
    r = chr(64 + (m - 1) % 20 + 1); m = (m - 1) // 20
    while m: r = chr(84 + (m - 1) % 5 + 1) + r; m = (m - 1) // 5
    return r

def many(r):
    """compressed proofs with many labels"""
    n = r.choice([20, 21, 100, 118, 119, 120, 121, 140, 160, 300, 619, 620, 640, 700])
    n += r.randint(-2, 2)
    vs = 'p q r s t'.split()
    kind = [r.choice(vs) for _ in range(n)]
    L = ['$c |- wff $. $v p q r s t $.'] + ['w%s $f wff %s $.' % (v, v) for v in vs]
    L.append('${ pr.1 $e |- p $. pr.2 $e |- q $. pr $a |- p q $. $}')
    es = ['e%d $e |- %s $.' % (i + 1, v) for i, v in enumerate(kind)]
    cut = r.randrange(n)       # hypotheses from here on are declared inside a block of assertions instead
    asr = ['x%d $a |- %s %s $.' % (i, r.choice(vs), r.choice(vs)) for i in range(n - cut)]
    L += asr[:0]
    L += ['${'] + es[:cut] 
    used = sorted(set(kind[:cut]))
    ths = []
    for t in range(12):
        a = r.randrange(cut) if cut else None; b = r.randrange(cut) if cut else None
        if a is None: break
        want = [kind[a], kind[b]]
        mand = ['w' + v for v in vs if v in used] + ['e%d' % (i + 1) for i in range(cut)]
        ea, eb = mand.index('e%d' % (a + 1)) + 1, mand.index('e%d' % (b + 1)) + 1
        if r.random() < 0.5:
            k = r.random()
            if k < 0.3: ea += r.choice([-1, 1, 20, -20, 100, -100])
            elif k < 0.6: eb += r.choice([-1, 1, 20, -20, 100, -100, 500])
            ea = max(1, ea); eb = max(1, eb)
        m = len(mand)
        pr = num(mand.index('w' + want[0]) + 1) + num(mand.index('w' + want[1]) + 1) + num(ea) + num(eb) + num(m + 1)
        ths.append('th%d $p |- %s $= ( pr ) %s $.' % (t, ' '.join(want), pr))
    L += ths + ['$}']
    verify('\n'.join(L) + '\n', 'many labels')

def long(r):
    """long substitutions"""
    k = r.randint(1, 9)
    L = ['$c |- wff ( ) -> [ ] $. $v p q $. wp $f wff p $. wq $f wff q $.', 'wi $a wff ( p -> q ) $.', 'wj $a wff [ p -> q ) $.', 'wk $a wff ( p -> q ] $.',
         'id $a |- ( p -> p ) $.', '${ mp.1 $e |- p $. mp.2 $e |- ( p -> q ) $. mp $a |- q $. $}', '${ ss.1 $e |- p p $. ss $a |- p $. $}']
    def tree(k, odd):
        # the expression and its compressed-proof tree; odd: replace one connective on the path
        if k == 0: return ['p'], ('l', 'wp', [])
        e, t = tree(k - 1, None); f, u = (e, t) if odd is None else tree(k - 1, odd if odd != k else None)
        c = 'wi' if odd != k else r.choice(['wj', 'wk'])
        if odd is not None and r.random() < 0.5 and odd != k: e, t, f, u = f, u, e, t
        return ['(' if c != 'wj' else '['] + e + ['->'] + f + [')' if c != 'wk' else ']'], ('l', c, [t, u])
    e, t = tree(k, None)
    d, u = tree(k, r.randint(1, k) if r.random() < 0.5 else None)
    class S: pass
    s = S(); s.hyps = [type('H', (), dict(label='wp'))]
    pr = mmref.encode(('l', 'id', [t]), s, None, r)
    L.append('t1 $p |- %s $= %s $.' % (' '.join(['('] + e + ['->'] + d + [')']), ' '.join(pr)))
    s = S(); s.hyps = [type('H', (), dict(label='wp')), type('H', (), dict(label='h1')), type('H', (), dict(label='h2'))]
    pr = mmref.encode(('l', 'mp', [t, ('l', 'wp', []), ('l', 'h1', []), ('l', 'h2', [])]), s, None, r)
    L += ['${ h1 $e |- %s $. h2 $e |- ( %s -> p ) $. t2 $p |- p $= %s $. $}' % (' '.join(e), ' '.join(d), ' '.join(pr))]
    s = S(); s.hyps = [type('H', (), dict(label='wp')), type('H', (), dict(label='h3'))]
    pr = mmref.encode(('l', 'ss', [t, ('l', 'h3', [])]), s, None, r)
    L += ['${ h3 $e |- %s %s $. t3 $p |- %s $= %s $. $}' % (' '.join(e), ' '.join(d), ' '.join(r.choice([e, d])), ' '.join(pr))]
    L = [l for x in L for l in wrap(x)]
    verify('\n'.join(L) + '\n', 'long substitutions')

def wrap(l):
    o, cur = [], ''
    for w in l.split():
        if len(cur) + len(w) > 75: o.append(cur); cur = ''
        cur += w + ' '
    return o + [cur]

if mode == 'V02': legacy()
i = 0
while time.time() < end:
    if i % 25 == 7 and mode in ('V01', 'V02'): many(random.Random(seed * 7919 + i))
    if i % 50 == 27 and mode in ('V01', 'V02'): long(random.Random(seed * 7919 + i))
    one(seed * 1000003 + i); i += 1
print('\nHUNT evaluations=%d bound=%s' % (evals, 'random databases: up to 16 theorems, proofs up to 120 steps, normal and compressed, correct, incomplete and damaged'))
