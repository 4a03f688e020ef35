"""Assembles one Why3 module per C function under contract."""
import re, os, hashlib
from cast import Unsupported, tu
import c2why
from c2why import FnTranslator, whytype, elem_whytype, int_range, tname, lit

HERE = os.path.dirname(os.path.abspath(__file__))
CDIR = os.path.join(os.path.dirname(HERE), 'contracts')

def mem_elem(m, unit):
    """(why elem type, range predicate or None)"""
    if m in ('m_i8',): return 'int', 'in_i8'
    if m == 'm_ptr': return 'ptr', None
    if m == 'm_f64': return 'real', None
    if m == 'f_pool__loc': return 'int', 'in_i64'
    mm = re.match(r'^m_([iu]\d+)$', m)
    if mm: return 'int', 'in_' + mm.group(1)
    mm = re.match(r'^f_(\w+?)__(\w+)$', m)
    if mm:
        for fn, q, dq in unit.structs.get(mm.group(1), []):
            if fn == mm.group(2):
                t = unit.ctype(q)
                if t[0] == 'int': return 'int', 'in_' + tname(t)
                if t[0] == 'ptr': return 'ptr', None
                if t[0] == 'float': return 'real', None
    raise Unsupported('memory ' + m)

def gtype(g, unit, tr):
    if g in tr.gvars:
        return tr.gvars[g]
    if g in tr.garrays:
        return tr.garrays[g]
    for cand in (g, g[2:]):
        if cand in unit.globals:
            return unit.ctype(unit.globals[cand]['type']['qualType'])
    m = re.match(r'^(g_\w+?)__(\w+)$', g)
    if m:
        for cand in (m.group(1), m.group(1)[2:]):
            if cand in unit.globals:
                st = unit.ctype(unit.globals[cand]['type']['qualType'])
                if st[0] == 'struct':
                    for fn, q, dq in unit.structs[st[1]]:
                        if fn == m.group(2):
                            return unit.ctype(q)
        # static local of a function
        f = unit.functions.get(m.group(1)[2:])
        if f:
            r = find_static(f, m.group(2))
            if r: return unit.ctype(r['type']['qualType'])
    for c in tr.callees.values():          # a static global of a callee's file
        u2 = tu(c.file)
        if u2 is not unit:
            for cand in (g, g[2:]):
                if cand in u2.globals:
                    return u2.ctype(u2.globals[cand]['type']['qualType'])
    raise Unsupported('global ' + g)

def find_static(n, name):
    if n.get('kind') == 'VarDecl' and n.get('storageClass') == 'static' and n['name'] == name:
        return n
    for x in n.get('inner', []) or []:
        r = find_static(x, name)
        if r: return r
    return None

def proto_types(unit, name, con):
    fd = unit.functions.get(name) or unit.protos.get(name)
    if fd is None:
        raise Unsupported('no prototype of ' + name)
    ps = [x for x in fd.get('inner', []) if x['kind'] == 'ParmVarDecl']
    q = fd['type']['qualType']
    rt = unit.ctype(q[:q.index('(')])
    out = []
    for pn, p in zip(con.params, ps):
        t = unit.ctype(p['type']['qualType'])
        out.append((pn, t[1] if pn in con.byref else t, pn in con.byref))
    if 'variadic' in con.opts:
        out.append(('va', ('vamap',), False))
    return out, rt

def spec_text(con, params, rt, forval, tr, unit):
    s = ''
    for lab, r in con.requires:
        s += '  requires { %s%s }\n' % ('[@expl:pre %s] ' % lab if lab else '', r)
    if forval:
        w = list(con.writes)
        if con.noreturn:
            pass
        s += '  writes { %s }\n' % ', '.join(w) if w else ''
    if con.diverges or con.noreturn:
        s += '  diverges\n'
    if con.noreturn and forval:
        s += '  ensures { false }\n'
    for lab, r in con.ensures:
        s += '  ensures { %s%s }\n' % ('[@expl:post %s] ' % lab if lab else '', r)
    if rt[0] == 'int':
        s += '  ensures { [@expl:type range] in_%s result }\n' % tname(rt)
    for w in con.writes:
        if w == 'brk':
            s += '  ensures { brk >= old brk }\n'
        elif w.startswith('g_'):
            t = gtype(w, unit, tr)
            if t[0] == 'int':
                s += '  ensures { [@expl:type range] in_%s %s }\n' % (tname(t), w)
    for pn, t, br in params:
        if br and t[0] == 'int' and pn in con.writes:
            s += '  ensures { [@expl:type range] in_%s %s }\n' % (tname(t), pn)
    return s

def mangle(n):
    if n in c2why.KEYWORDS or n in c2why.LIBNAMES:
        n += '_v'
    if n[0].isupper():
        n = 'v' + n
    return n

def interface(t, used):
    """the library module t as seen by a client: every lemma function becomes a ghost procedure with the same
    contract (dropped if `used` does not call it), lemmas marked (*L*) are dropped; their proofs are
    the obligations of the module itself, which is verified from its full text"""
    items = re.split(r'(?m)^(?=  (?:let|lemma|axiom|function|predicate|type|constant|val|use)\b|  \(\*|end\b)', t)
    out = ''
    for it in items:
        m = re.match(r'  let (?:rec )?lemma (\w+)', it)
        if m:
            if not re.search(r'\b%s\b' % m.group(1), used):
                continue
            h = re.search(r'(?s)^(.*?)(?:\n  =|\} = )', it).group(1)
            h += '}' if not h.rstrip().endswith('}') else ''
            h = re.sub(r'variant \{[^}]*\}', '', h)
            i = re.search(r'\brequires\b|\bensures\b', h).start()
            out += re.sub(r'^  let (?:rec )?lemma', '  val ghost', h[:i].rstrip()) + ' : unit\n    ' + h[i:].rstrip() + '\n'
        elif it.startswith('  (*L*)'):
            continue
        else:
            out += it
    return out

def build(fname, cfile, contracts, externs, libs, baseline=None, smoke=False):
    unit = tu(cfile)
    con = contracts[fname]
    tr = FnTranslator(unit, fname, contracts, externs, baseline)
    tr.run()
    # annotations that found no place
    missing = []
    for k in con.loops:
        if ('loop', k) not in tr.attached:
            missing.append('loop ' + k)
    for i, (a, t) in enumerate(con.ats):
        if ('at', i) not in tr.attached:
            missing.append('at ' + ' '.join(a))
    nl = [l for l in tr.loops_seen if l not in con.loops]
    unannotated = nl
    # self call -> contract of itself
    vals = ''
    texts = [tr.body]
    for nm, c in tr.callees.items():
        ps, rt = proto_types(unit, nm, c)
        sig = ' '.join('(%s%s: %s)' % ('ref ' if br else '', mangle(pn), whytype(t)) for pn, t, br in ps) or '()'
        vals += 'val c_%s %s : %s\n%s' % (nm, sig, whytype(rt) if not c.noreturn else whytype(rt), spec_text(c, ps, rt, True, tr, unit))
    spec = spec_text(con, tr.params, tr.rettype, False, tr, unit)
    ext = ''
    for e in tr.externs_used:
        ext += externs[e].strip() + '\n'
    alltext = '\n'.join([tr.body, vals, spec, ext, ' '.join(con.writes), str(tr.locals)])
    mems = sorted(set(re.findall(r'\b(m_[iu]\d+|m_ptr|m_f64|f_\w+?__\w+)\b', re.sub(r'\b(?:ld|st)_(m_\w+|f_\w+)', r'\1', alltext))))
    globs = sorted(set(re.findall(r'\bg_\w+', alltext)))
    needbrk = bool(re.search(r'\bbrk\b', alltext)) or bool(tr.array_locals)
    decl = ''
    uses = []
    for c in [con] + list(tr.callees.values()):
        for u in c.uses:
            if u not in uses: uses.append(u)
    out = 'module %s\n' % ('Fn_' + fname)
    out += '  use int.Int\n  use map.Map\n  use int.ComputerDivision\n  use real.RealInfix\n  use real.FromInt\n  use ref.Ref\n  use Mem\n'
    for u in uses:
        out += '  use %s\n' % u
    if needbrk:
        decl += 'val ref brk : int\n'
    garr = {}
    for m in mems:
        et, rng = mem_elem(m, unit)
        decl += 'val ref %s : map int (map int %s)\n' % (m, et)
    gr = []
    static_no = 0
    for g in globs:
        t = gtype(g, unit, tr)
        if t[0] == 'array':
            static_no += 1
            decl += 'let constant %s : ptr = { b = %d; o = 0 }\naxiom bsize_%s: bsize %d = %d /\\ lo64 %d = 0\n' % (g, static_no, g, static_no, t[2], static_no)
        elif t[0] == 'struct':
            continue
        else:
            decl += 'val ref %s : %s\n' % (g, whytype(t))
            if t[0] == 'int':
                gr.append('in_%s %s' % (tname(t), g))
    used = re.sub(r'\s+', ' ', alltext)
    for m in mems:
        et, rng = mem_elem(m, unit)
        # bounds: a pool block's words start at 1 (word 0, its pool location, is in f_pool__loc)
        inb = {'m_i64': 'inb64 p', 'f_pool__loc': '(p.o = 0 /\\ lo64 p.b = 1)'}.get(m, 'inb p')
        if 'ld_' + m in alltext:
            decl += 'val ld_%s (p: ptr) : %s\n  requires { [@expl:memory bounds (read)] %s }\n  ensures { result = %s[p.b][p.o] }\n%s' % (
                m, et, inb, m, '  ensures { %s result }\n' % rng if rng else '')
        if 'st_' + m in alltext:
            decl += ('val st_%s (p: ptr) (v: %s) : unit\n  requires { [@expl:memory bounds (write)] %s /\\ p.b > 0 }\n'
                     '  writes { %s }\n  ensures { %s = set (old %s) p.b (set (old %s)[p.b] p.o v) }\n') % (m, et, inb, m, m, m, m)
    if tr.array_locals:
        decl += ('val alloca_ (n: int) : ptr writes { brk } ensures { brk = old brk + 1 /\\ result = { b = old brk; o = 0 } /\\ bsize result.b = n /\\ lo64 result.b = 0 }\n')
    for e in tr.exceptions:
        decl += 'exception %s%s\n' % (e[0], '' if e[1] in (None, 'unit') else ' ' + e[1])
    if 'g_NmbrNull' in tr.nullstrs:
        if 'm_i64' not in mems:
            decl += 'val ref m_i64 : map int (map int int)\n'
            mems.append('m_i64')
        decl += 'val get_nmbr_null () : ptr reads { m_i64 } ensures { result = { b = nnull_b; o = 3 } } ensures { let c = m_i64[nnull_b] in c[1] = 8 /\\ c[2] = 8 /\\ c[3] = -1 }\n'
    if 'g_PntrNull' in tr.nullstrs:
        for mm_, et_ in (('m_i64', 'int'), ('m_ptr', 'ptr')):
            if mm_ not in mems:
                decl += 'val ref %s : map int (map int %s)\n' % (mm_, et_)
                mems.append(mm_)
        decl += 'val get_pntr_null () : ptr reads { m_i64, m_ptr } ensures { result = { b = pnull_b; o = 3 } } ensures { let c = m_i64[pnull_b] in c[1] = 8 /\\ c[2] = 8 /\\ m_ptr[pnull_b][3] = null }\n'
    # literals
    for i, (key, nm) in enumerate(sorted(tr.lits.items())):
        h = 1 + i if key else 1000000
        content = ' /\\ '.join('m_i8[%s][%d] = %s' % (lit(-h), j, lit(c - 256 if c > 127 else c)) for j, c in enumerate(list(key) + [0]))
        if 'm_i8' not in mems:
            decl += 'val ref m_i8 : map int (map int int)\n'
            mems.append('m_i8')
        bk = 'emptystr_block' if not key else lit(-h)
        decl += 'constant %s : ptr = { b = %s; o = 0 }\naxiom %s_size: bsize %s = %d\n' % (nm, bk, nm, bk, len(key)+1)
        decl += 'val get_%s () : ptr reads { m_i8 } ensures { result = %s } ensures { %s }\n' % (nm, nm, content)
    if tr.rettype[0] == 'void':
        decl += 'exception Ret\n'
    else:
        decl += 'exception Ret %s\n' % whytype(tr.rettype)
    out += re.sub(r'(?m)^', '  ', decl)
    out += re.sub(r'(?m)^', '  ', ext)
    out += re.sub(r'(?m)^', '  ', vals)
    # body
    sig = ' '.join('(%s%s: %s)' % ('ref ' if br else '', pn, whytype(t)) for pn, t, br in tr.params) or '()'
    reqs = ''
    for pn, t, br in tr.params:
        if t[0] == 'int':
            reqs += '  requires { in_%s %s }\n' % (tname(t), pn)
    for g in gr:
        reqs += '  requires { %s }\n' % g
    if needbrk:
        reqs += '  requires { brk > 1000 }\n'
    pre = ''
    for pn, t, br in tr.params:
        if not br:
            pre += 'let %s_in = %s in\n' % (pn, pn)
            if re.search(r'\b%s <- ' % pn, tr.body):
                pre += 'let ref %s = %s_in in\n' % (pn, pn)
        else:
            pre += 'let %s_in = pure { %s } in\n' % (pn, pn)
    for nm, t in tr.locals:
        if t[0] == 'int':
            pre += 'let ref %s = any_%s () in\n' % (nm, tname(t))
        elif t[0] == 'ptr':
            pre += 'let ref %s = any_ptr () in\n' % nm
        elif t[0] == 'float':
            pre += 'let ref %s = any_real () in\n' % nm
        else:
            raise Unsupported('local of type %s' % (t,))
    for nm, t in tr.array_locals:
        size = t[2]
        if t[1][0] == 'array':
            raise Unsupported('2-d local array')
        pre += 'let %s = alloca_ %d in\n' % (nm, size)
    # declared effects
    for w in con.writes:
        pre += '%s <- %s;\n' % (w, w)
    smk = 'check { smoke_probe 0 };\n' if smoke else ''
    body = tr.body
    if smoke:
        cnt = [0]
        def rep(m):
            cnt[0] += 1
            return m.group(0)
    pre = 'label Pre in\n' + smk + pre
    if tr.rettype[0] == 'void':
        inner = '%s(try\n%s\nwith Ret -> () end)%s' % (pre, body, '; check { smoke_probe 1 }' if smoke else '')
    else:
        inner = '%s(try\n%s;\nabsurd\nwith Ret rv_ -> %srv_ end)' % (pre, body, 'check { smoke_probe 1 }; ' if smoke else '')
    if 'sp' in con.opts:
        inner = '[@vc:sp] (\n%s\n)' % inner
    out += 'let impl_%s %s : %s\n%s%s=\n%s\n' % (fname, sig, whytype(tr.rettype), reqs, spec, inner)
    out += 'end\n'
    lib = ''
    for l in libs:
        t = open(os.path.join(CDIR, l)).read() + '\n'
        m = re.match(r'\s*module (\w+)', t)
        if m and m.group(1) in con.opts.get('iface', []):
            t = interface(t, tr.body)
        lib += t
    info = {
        'missing': missing, 'unannotated': unannotated, 'externs': list(tr.externs_used),
        'callees': list(tr.callees), 'dropped': sorted(tr.dropped_calls), 'locals': tr.cur_locals,
        'nloops': len(tr.loops_seen), 'rename': tr.rename,
    }
    return lib + out, info
