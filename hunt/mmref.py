"""An independent reading of the Metamath language: a parser, a proof checker, and a generator of random databases.
Written from the language definition only; used as the oracle by the Python harnesses."""
import random

class Bad(Exception):
    pass

class Stmt:
    __slots__ = ('label', 'typ', 'math', 'proof', 'mand_f', 'ess', 'hyps', 'djs', 'act_d', 'act_h', 'idx', 'line')
    def __repr__(self):
        return '<%s %s %s>' % (self.label, self.typ, ' '.join(self.math))

def strip_comments(toks):
    out, inc = [], False
    for t in toks:
        if inc:
            if t == '$)':
                inc = False
        elif t == '$(':
            inc = True
        else:
            out.append(t)
    if inc:
        raise Bad('unterminated comment')
    return out

def pairs(vs):
    s = set()
    for i in range(len(vs)):
        for j in range(i + 1, len(vs)):
            s.add((min(vs[i], vs[j]), max(vs[i], vs[j])))
    return s

def parse(text):
    """-> (labels dict, ordered list of Stmt)"""
    toks = strip_comments(text.split())
    consts, vars_ever = set(), set()
    labels, order = {}, []
    frames = [dict(v=set(), d=set(), f=[], e=[], h=[])]
    i, n = 0, len(toks)
    label = None
    def act(k):
        r = [] if k in 'feh' else set()
        for fr in frames:
            r = r + fr[k] if isinstance(r, list) else r | fr[k]
        return r
    def until(i, ends):
        j = i
        while j < n and toks[j] not in ends:
            if toks[j].startswith('$'):
                raise Bad('unexpected ' + toks[j])
            j += 1
        if j >= n:
            raise Bad('unterminated statement')
        return toks[i:j], j
    while i < n:
        t = toks[i]; i += 1
        if t == '${':
            frames.append(dict(v=set(), d=set(), f=[], e=[], h=[]))
        elif t == '$}':
            if len(frames) < 2:
                raise Bad('extra $}')
            frames.pop()
        elif t in ('$c', '$v', '$d'):
            if label:
                raise Bad('label before ' + t)
            l, i = until(i, ('$.',)); i += 1
            for x in l:
                if t == '$c':
                    if x in consts or x in vars_ever: raise Bad('redeclared')
                    consts.add(x)
                elif t == '$v':
                    if x in act('v') or x in consts: raise Bad('redeclared')
                    frames[-1]['v'].add(x); vars_ever.add(x)
                else:
                    if x not in act('v'): raise Bad('$d of a non-variable')
            if t == '$d':
                if len(set(l)) != len(l): raise Bad('$d repeats')
                frames[-1]['d'] |= pairs(l)
        elif t in ('$f', '$e', '$a', '$p'):
            if not label: raise Bad('no label')
            if label in labels: raise Bad('duplicate label')
            s = Stmt(); s.label, s.typ = label, t[1]; label = None
            s.proof = None
            if t == '$p':
                s.math, i = until(i, ('$=',)); i += 1
                s.proof, i = until(i, ('$.',)); i += 1
            else:
                s.math, i = until(i, ('$.',)); i += 1
            av = act('v')
            for x in s.math:
                if x not in av and x not in consts: raise Bad('undeclared symbol ' + x)
            if not s.math or s.math[0] not in consts: raise Bad('first symbol')
            s.idx = len(order)
            if t == '$f':
                if len(s.math) != 2 or s.math[1] not in av: raise Bad('$f form')
                if any(h.math[1] == s.math[1] for h in act('f')): raise Bad('two $f')
                frames[-1]['f'].append(s); frames[-1]['h'].append(s)
            elif t == '$e':
                frames[-1]['e'].append(s); frames[-1]['h'].append(s)
            else:
                ess = act('e')
                used = set(x for h in ess for x in h.math if x in av) | set(x for x in s.math if x in av)
                s.act_h = act('h')
                s.hyps = [h for h in s.act_h if h.typ == 'e' or h.math[1] in used]
                s.act_d = act('d')
                s.djs = set(p for p in s.act_d if p[0] in used and p[1] in used)
                if any(v not in [h.math[1] for h in act('f')] for v in used): raise Bad('no $f')
            labels[s.label] = s; order.append(s)
        else:
            if t.startswith('$'): raise Bad('unknown keyword')
            if label: raise Bad('two labels')
            label = t
    if label or len(frames) != 1:
        raise Bad('unfinished')
    return labels, order, consts

def is_var(s, consts):
    return s not in consts

def decode(s, labels):
    """compressed proof -> list of ('l', label) | ('z',) | ('b', k) | ('?',)"""
    pr = s.proof
    k = pr.index(')')
    lst = [h.label for h in s.hyps] + pr[1:k]
    out, x, after = [], 0, False
    for ch in ''.join(pr[k + 1:]):
        if 'A' <= ch <= 'T':
            m = x * 20 + ord(ch) - 64; x = 0
            if m <= len(lst): out.append(('l', lst[m - 1]))
            else: out.append(('b', m - len(lst) - 1))
        elif 'U' <= ch <= 'Y': x = x * 5 + ord(ch) - 84
        elif ch == 'Z':
            if x or not out: raise Bad('Z misplaced')
            out.append(('z',))
        elif ch == '?':
            if x: raise Bad('? misplaced')
            out.append(('?',))
        else: raise Bad('bad character')
    if x: raise Bad('unfinished number')
    return out

def subst(math, sg):
    r = []
    for x in math:
        if x in sg: r += sg[x]
        else: r.append(x)
    return r

def check(s, labels, consts, steps=None):
    """-> 'ok' | '?' | raises Bad(kind)"""
    if not s.proof: raise Bad('empty')
    if steps is None:
        steps = decode(s, labels) if s.proof[0] == '(' else [('?',) if t == '?' else ('l', t) for t in s.proof]
    act = set(h.label for h in s.act_h)
    st, saved, unk = [], [], False
    dbad = None
    for op in steps:
        if op[0] == '?': st.append(None); unk = True
        elif op[0] == 'z':
            if not st: raise Bad('stack')
            saved.append(st[-1])
        elif op[0] == 'b':
            if not 0 <= op[1] < len(saved): raise Bad('backreference')
            st.append(saved[op[1]])
        else:
            a = labels.get(op[1])
            if a is None or a.idx >= s.idx: raise Bad('label')
            if a.typ in 'fe':
                if a.label not in act: raise Bad('inactive')
                st.append(a.math); continue
            k = len(a.hyps)
            if k > len(st): raise Bad('stack')
            args = st[len(st) - k:]; del st[len(st) - k:]
            if any(x is None for x in args): st.append(None); unk = True; continue
            sg = {}
            for h, x in zip(a.hyps, args):
                if h.typ == 'f':
                    if x[0] != h.math[0]: raise Bad('type')
                    sg[h.math[1]] = x[1:]
            for h, x in zip(a.hyps, args):
                if h.typ == 'e' and subst(h.math, sg) != x: raise Bad('unify')
            for (u, v) in a.djs:
                for x in sg[u]:
                    if x in consts: continue
                    for y in sg[v]:
                        if y in consts: continue
                        if x == y or (min(x, y), max(x, y)) not in s.act_d: dbad = (u, v)
            st.append(subst(a.math, sg))
    if len(st) != 1: raise Bad('stack')
    if st[0] is not None and st[0] != s.math and not unk: raise Bad('result')
    if dbad: raise Bad('disjoint')
    return '?' if unk else 'ok'

def encode(steps_tree, s, labels, rnd, save=True):
    """tree: ('l', label, [children]) -> compressed proof tokens (our own encoder)"""
    mand = [h.label for h in s.hyps]
    lst = []
    def coll(t):
        for c in t[2]: coll(c)
        if t[1] not in mand and t[1] not in lst and t[1] != '?': lst.append(t[1])
    coll(steps_tree)
    rnd.shuffle(lst)
    al = mand + lst
    cnt = {}
    def key(t):
        return (t[1], tuple(key(c) for c in t[2]))
    def walk(t):
        k = key(t); cnt[k] = cnt.get(k, 0) + 1
        if cnt[k] == 1:
            for c in t[2]: walk(c)
    walk(steps_tree)
    def num(m):
        r = chr(64 + (m - 1) % 20 + 1); m = (m - 1) // 20
        while m: r = chr(84 + (m - 1) % 5 + 1) + r; m = (m - 1) // 5
        return r
    seen, o = {}, []
    def out(t):
        k = key(t)
        if k in seen: o.append(num(len(al) + 1 + seen[k])); return
        for c in t[2]: out(c)
        o.append('?' if t[1] == '?' else num(al.index(t[1]) + 1))
        if save and t[2] and cnt[k] > 1: seen[k] = len(seen); o.append('Z')
    out(steps_tree)
    body = ''.join(o)
    toks, i = ['('] + lst + [')'], 0
    while i < len(body):
        w = rnd.randint(1, 60); toks.append(body[i:i + w]); i += w
    return toks

def rpn(t):
    r = []
    for c in t[2]: r += rpn(c)
    return r + [t[1]]

class Gen:
    """random database with theorems whose proofs are correct by construction"""
    def __init__(self, rnd):
        self.r = rnd
        self.lines = []           # list of lines
        self.consts, self.vars = [], []
        self.n = 0
    def lab(self, p='s'):
        self.n += 1
        r = self.r.random()
        return p + str(self.n) if r < 0.8 else '%s.%d' % (p, self.n) if r < 0.9 else '%s-%d_' % (p.upper(), self.n)
    def build(self, nthm=12, depth=1):
        r = self.r
        types = ['wff', 'set', 'class', '|-'][:r.randint(2, 4)]
        if '|-' not in types: types.append('|-')
        self.types = types
        ops = r.sample(['->', '-.', '(', ')', '=', 'e.', 'A.', '{', '}', ',', '+', '0', '1'], r.randint(3, 8))
        self.consts = types + ops
        syn = [t for t in types if t != '|-']
        nv = r.randint(3, 7)
        self.vars = ['ph', 'ps', 'ch', 'x', 'y', 'z', 'A', 'B'][:nv]
        r.shuffle(self.vars)
        L = self.lines
        L.append('$c ' + ' '.join(self.consts) + ' $.')
        if r.random() < 0.3: L.append('$( a comment with $ and "quotes" $)')
        L.append('$v ' + ' '.join(self.vars) + ' $.')
        self.vt = {}
        self.fl = {}
        vs = list(self.vars); r.shuffle(vs)
        for v in vs:
            self.vt[v] = r.choice(syn); self.fl[v] = self.lab('v' + v.lower())
            L.append('%s $f %s %s $.' % (self.fl[v], self.vt[v], v))
        self.twin = {}
        # assertions: dict(label, hyps [(typ,label,math)], math, djs)
        self.asrt = []
        for _ in range(r.randint(2, 5)):   # syntax axioms
            t = r.choice(syn)
            body = []
            k = r.randint(0, 3)
            vs = [r.choice(self.vars) for _ in range(k)]
            if len(set(vs)) != len(vs) and r.random() < 0.7: vs = list(dict.fromkeys(vs))
            for v in vs:
                if r.random() < 0.7: body.append(r.choice(ops))
                body.append(v)
            if not body or r.random() < 0.4: body.append(r.choice(ops))
            if r.random() < 0.05 and not vs: body = []
            self.axiom([t] + body, [], nod=r.random() < 0.9)
            if body and r.random() < 0.35:     # a twin that differs in one symbol
                tw = list(body); cs = [i for i, x in enumerate(tw) if x not in self.vars]
                if cs:
                    i = r.choice(cs[:1] if r.random() < 0.5 else cs); tw[i] = r.choice(ops)
                    if tw != body:
                        a = self.asrt[-1]['label']; self.axiom([t] + tw, [], nod=True)
                        self.twin[a] = self.asrt[-1]['label']; self.twin[self.asrt[-1]['label']] = a
        for _ in range(r.randint(2, 5)):
            self.logical()
        self.thms = {}
        for _ in range(nthm):
            self.theorem()
    def expr(self, k, vs):
        r = self.r; b = []
        for _ in range(k):
            b.append(r.choice(vs) if r.random() < 0.6 else r.choice(self.consts[len(self.types):]))
        return b
    def logical(self):
        r = self.r
        vs = r.sample(self.vars, r.randint(1, min(3, len(self.vars))))
        hy = []
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            hy.append(['|-'] + (self.expr(r.randint(1, 3), vs) if r.random() < 0.6 else [r.choice(vs)]))
        self.axiom(['|-'] + self.expr(r.randint(1, 5), vs), hy)
    def frame(self, math, hy, hl, djs, extra=()):
        used = [v for v in self.vars if v in math or any(v in h for h in hy)]
        # mandatory hypotheses in order of appearance in the database: the $f come first
        order = [ (v, self.fl[v]) for v in self.fl if v in used]
        order.sort(key=lambda p: self.forder.index(p[0]))
        hyps = [('f', l, [self.vt[v], v]) for v, l in order] + [('e', l, m) for l, m in zip(hl, hy)]
        d = set((a, b) for (a, b) in djs if a in used and b in used)
        return hyps, d
    @property
    def forder(self):
        return list(self.fl)
    def axiom(self, math, hy, nod=False):
        r = self.r
        used = [v for v in self.vars if v in math or any(v in h for h in hy)]
        djs = set()
        if not nod and len(used) >= 2 and r.random() < self.axd:
            djs = pairs(r.sample(used, r.randint(2, len(used))))
        l = self.lab('ax')
        hl = [self.lab('h') for _ in hy]
        scoped = bool(hy or djs)
        o = ['${'] if scoped else []
        o += self.dlines(djs)
        o += ['  %s $e %s $.' % (a, ' '.join(b)) for a, b in zip(hl, hy)]
        o.append('  %s $a %s $.' % (l, ' '.join(math)))
        if scoped: o.append('$}')
        self.lines += o
        hyps, d = self.frame(math, hy, hl, djs)
        self.asrt.append(dict(label=l, hyps=hyps, math=math, djs=d))
    def dlines(self, djs):
        r = self.r; o = []
        left = set(djs)
        while left:
            a, b = r.choice(sorted(left))
            grp = [a, b]
            for v in self.vars:
                if v not in grp and all((min(v, g), max(v, g)) in djs for g in grp) and r.random() < 0.7: grp.append(v)
            r.shuffle(grp)
            left -= pairs(grp)
            o.append('  $d ' + ' '.join(grp) + ' $.')
        r.shuffle(o)
        return o
    def theorem(self):
        r = self.r
        hy, hl = [], []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            k = r.random()
            src = r.choice(self.asrt)
            es = [m for (t, l, m) in src['hyps'] if t == 'e']
            if k < 0.5 and es: hy.append(list(r.choice(es)))
            else: hy.append(['|-'] + self.expr(r.randint(1, 3), self.vars))
            hl.append(self.lab('th.h'))
        # facts: expr tuple -> (tree, size)
        facts = {}
        for v in self.vars: facts[(self.vt[v], v)] = (('l', self.fl[v], []), 1)
        for l, m in zip(hl, hy): facts[tuple(m)] = (('l', l, []), 1)
        need = {}
        bytype = {}
        def add(e, tree, size):
            if e not in facts or (facts[e][1] > size and r.random() < 0.3): facts[e] = (tree, size)
        made = []
        for _ in range(r.randint(6, 40)):
            a = r.choice(self.asrt)
            sg = {}
            ok = True
            fe = [h for h in a['hyps'] if h[0] == 'e']
            keys = list(facts)
            if fe and r.random() < 0.8:    # match one essential hypothesis against a known fact
                h = r.choice(fe)[2]
                cand = [k for k in keys if k[0] == h[0]]
                if not cand: continue
                f = r.choice(cand)
                sg = self.match(h, f, {}, facts) or {}
            for (t, l, m) in a['hyps']:
                if t == 'f' and m[1] not in sg:
                    c = [k for k in keys if k[0] == m[0]]
                    c = [k for k in c if len(k) < 12] or c
                    if not c: ok = False; break
                    sg[m[1]] = list(r.choice(c)[1:])
            if not ok: continue
            ch, size = [], 1
            for (t, l, m) in a['hyps']:
                e = tuple(subst(m, sg)) if t == 'e' else (m[0],) + tuple(sg[m[1]])
                if e not in facts: ok = False; break
                ch.append(facts[e][0]); size += facts[e][1]
            if not ok or size > 120: continue
            res = tuple(subst(a['math'], sg))
            if len(res) > 40: continue
            add(res, ('l', a['label'], ch), size)
            made.append(res)
        good = [m for m in made if facts[m][0][2]]
        if not good: return
        pick = r.choice(good if r.random() < 0.6 else sorted(good, key=lambda m: -facts[m][1])[:3])
        if any(len(m) == 1 for m in [pick]) and r.random() < 0.9: pass
        if self.dummy:      # prefer proofs with variables that the theorem does not mention
            def score(m):
                used = set(m) | set(x for h in hy for x in h); lb = set(rpn(facts[m][0]))
                return len([v for v in self.vars if self.fl[v] in lb and v not in used]) + len([a for a in self.asrt if a['djs'] and a['label'] in lb])
            pick = max(r.sample(good, min(len(good), 6)), key=score)
        tree = facts[pick][0]
        math = list(pick)
        # $d needed
        byl = {a['label']: a for a in self.asrt}
        fm = {self.fl[v]: [self.vt[v], v] for v in self.vars}
        hm = dict(zip(hl, hy))
        needd, clash = set(), [False]
        def ev(t):
            if t[1] in fm: return fm[t[1]]
            if t[1] in hm: return hm[t[1]]
            a = byl[t[1]]
            sg = {}
            for (ty, l, m), c in zip(a['hyps'], t[2]):
                x = ev(c)
                if ty == 'f': sg[m[1]] = x[1:]
            for (u, v) in a['djs']:
                for x in sg[u]:
                    for y in sg[v]:
                        if x in self.vars and y in self.vars:
                            if x == y: clash[0] = True
                            else: needd.add((min(x, y), max(x, y)))
            return subst(a['math'], sg)
        ev(tree)
        if clash[0] and r.random() < 0.8: return
        djs = set(needd)
        if r.random() < 0.2: djs |= pairs(r.sample(self.vars, 2))
        dropped = None
        if djs and r.random() < self.dropd:
            dropped = r.choice(sorted(djs)); djs.discard(dropped)
        l = self.lab('th')
        hyps, d = self.frame(math, hy, hl, djs)
        o = ['${'] + self.dlines(djs) + ['  %s $e %s $.' % (a, ' '.join(b)) for a, b in zip(hl, hy)]
        pos = len(self.lines) + len(o)
        o += [None, '$}']
        self.lines += o
        self.thms[l] = dict(pos=pos, math=math, tree=tree, hyps=hyps, hl=hl)
        self.asrt.append(dict(label=l, hyps=hyps, math=math, djs=d))
    dropd = 0.15
    axd = 0.4
    dummy = False
    def match(self, h, f, sg, facts):
        """one-sided matching of the hypothesis h (variables) with the fact f; variables take expressions that are facts"""
        r = self.r
        def go(i, j, sg):
            if i == len(h): return sg if j == len(f) else None
            x = h[i]
            if x not in self.vt:
                return go(i + 1, j + 1, sg) if j < len(f) and f[j] == x else None
            if x in sg:
                e = sg[x]
                return go(i + 1, j + len(e), sg) if list(f[j:j + len(e)]) == e else None
            ks = list(range(j, len(f) + 1)); r.shuffle(ks)
            for k in ks:
                if (self.vt[x],) + tuple(f[j:k]) in facts:
                    q = go(i + 1, k, dict(sg, **{x: list(f[j:k])}))
                    if q is not None: return q
            return None
        return go(0, 0, sg)
