"""Mechanical extraction: clang AST of a function of /repo -> WhyML.

What the extraction keeps: every statement, every expression, every integer
conversion of the function (as clang's semantic analysis resolved them).
What it adds: bounds obligations on each memory access, overflow obligations on
each signed operation, the sidecar contract's annotations.
What it drops: see DROPPED in this file; reported in the evidence.
"""
import re
from cast import Unsupported, TU, tu
from contracts import KEYWORDS, Contract

# calls whose only effect is diagnostics on the console/log; their arguments are not evaluated
REPORTING = {'printf', 'fprintf', 'fflush', 'print2', 'puts', 'fputs', 'putchar', 'printLongLine',
             'sourceError', 'rawSourceError', 'errorMessage', 'outputMessage', 'mathTokenError_',
             'getPoolStats'}
DROPPED = [
    'arguments of console/log reporting calls (%s) are not evaluated' % ', '.join(sorted(REPORTING)),
    'object lifetimes (free/use-after-free, uninitialised reads) are not tracked: free() is a no-op',
    'pointer arithmetic outside an object is only reported when dereferenced',
    'operands of one C expression are evaluated left to right',
]
LIBNAMES = set()
# debug statistics counters: assignments to them are dropped
STAT_GLOBALS = {'db', 'db0', 'db1', 'db2', 'db3', 'db4', 'db5', 'db6', 'db7', 'db8', 'db9', 'poolTotalFree'}
DROPPED.append('assignments to the debug statistics counters db, db0..db9 and of the free-pool byte tally poolTotalFree (and the evaluation of their right-hand sides)')

def int_range(t):
    if t[0] == 'int':
        bits, sg = t[1], t[2]
        if sg:
            return -(1 << (bits-1)), (1 << (bits-1)) - 1
        return 0, (1 << bits) - 1
    return None

def tname(t):
    return ('i' if t[2] else 'u') + str(t[1])

def lit(v):
    return str(v) if v >= 0 else '(%d)' % v

def memname(t):
    if t[0] == 'int':
        if t[1] in (8, 1):
            return 'm_i8'
        return 'm_' + tname(t)
    if t[0] == 'ptr':
        return 'm_ptr'
    if t[0] == 'float':
        return 'm_f64'
    raise Unsupported('memory of type %s' % (t,))

def whytype(t):
    if t[0] == 'int':
        return 'int'
    if t[0] == 'ptr':
        return 'ptr'
    if t[0] == 'float':
        return 'real'
    if t[0] == 'void':
        return 'unit'
    if t[0] == 'vamap':
        return 'map int ptr'
    raise Unsupported('value type %s' % (t,))

def elem_whytype(mem):
    if mem == 'm_ptr':
        return 'ptr'
    if mem == 'm_f64':
        return 'real'
    return 'int'

class V:
    """a translated expression"""
    __slots__ = ('s', 't', 'impure', 'const', 'isbool')
    def __init__(self, s, t, impure=False, const=None, isbool=False):
        self.s, self.t, self.impure, self.const, self.isbool = s, t, impure, const, isbool

class FnTranslator:
    def __init__(self, unit, fname, contracts, externs, baseline=None, nolocs=False):
        self.tu = unit
        self.fname = fname
        self.contracts = contracts
        self.externs = externs
        self.con = contracts.get(fname)
        self.baseline = baseline or {}
        self.env = {}             # decl id -> ('local', name, type) etc
        self.used_names = set()
        self.locals = []          # (why name, type, init)
        self.array_locals = []    # (name, elemtype, size)
        self.struct_locals = []
        self.callees = {}         # contract val name -> None
        self.externs_used = []
        self.exceptions = []
        self.memories = {}        # mem name -> elem type
        self.garrays = {}         # global array name -> (elemtype, size)
        self.gvars = {}
        self.lits = {}            # content -> name
        self.loopno = 0
        self.callno = {}
        self.ctx = []             # loop/switch contexts
        self.retstack = []
        self.inline_depth = 0
        self.uid = 0
        self.lines = {}
        self.loops_seen = []
        self.attached = set()
        self.labels_in_scope = []
        self.dropped_calls = set()
        self.localnames = []      # C names for the baseline
        self.opts = self.con.opts if self.con else {}
        self.stmt_calls = []
        self.nostmts = 0
        self.nullstrs = set()

    # ------------------------------------------------------------ names
    def fresh(self, base):
        self.uid += 1
        return '%s_%d' % (base, self.uid)

    def mangle(self, n):
        if n in KEYWORDS or n in LIBNAMES:
            n = n + '_v'
        if n[0].isupper():
            n = 'v' + n
        return n

    def newname(self, n):
        m = self.mangle(n)
        if m not in self.used_names:
            self.used_names.add(m)
            return m
        k = 2
        while '%s_%d' % (m, k) in self.used_names:
            k += 1
        m = '%s_%d' % (m, k)
        self.used_names.add(m)
        return m

    # ------------------------------------------------------------ helpers
    def strip(self, n):
        while n['kind'] in ('ParenExpr', 'ConstantExpr') or (n['kind'] == 'ImplicitCastExpr' and n.get('castKind') == 'NoOp'):
            n = n['inner'][0]
        return n

    def seq2(self, parts, fn):
        """parts: list of V; evaluate in order, then build fn(list of strings)."""
        nimp = [i for i, p in enumerate(parts) if p.impure]
        if len(nimp) == 0 or (len(nimp) == 1 and len(parts) == 1):
            return fn([p.s for p in parts])
        pre = ''
        names = []
        for i, p in enumerate(parts):
            if p.const is not None or re.match(r'^\(?-?\d+\)?$', p.s):
                names.append(p.s)
            elif not p.impure and not re.search(r'\bld_|\bm_|[a-z]', p.s):
                names.append(p.s)
            else:
                t = self.fresh('t')
                pre += 'let %s = %s in ' % (t, p.s)
                names.append(t)
        return '(%s%s)' % (pre, fn(names))

    def touch_mem(self, name, et):
        self.memories[name] = et

    # ------------------------------------------------------------ conversions
    def conv(self, v, t):
        """integral conversion of V to type t"""
        s = v.t
        if s[0] == 'int' and t[0] == 'int':
            if t[1] == 1:
                return V('(if %s <> 0 then 1 else 0)' % v.s, t, v.impure)
            if v.const is not None:
                lo, hi = int_range(t)
                c = v.const
                if not (lo <= c <= hi):
                    c = (c - lo) % (1 << t[1]) + lo
                return V(lit(c), t, False, c)
            lo1, hi1 = int_range(s)
            lo2, hi2 = int_range(t)
            if lo2 <= lo1 and hi1 <= hi2:
                return V(v.s, t, v.impure)
            return V('(wrap_%s %s)' % (tname(t), v.s), t, v.impure)
        raise Unsupported('conversion %s -> %s' % (s, t))

    def checked(self, t, s):
        """s: arithmetic WhyML term text over pure names; result type t"""
        return s

    # ------------------------------------------------------------ literals
    def strlit(self, n):
        raw = n['value']
        import ast as pyast
        # C string literal -> bytes
        s = raw
        if s.startswith(('L"', 'u"', 'U"')):
            raise Unsupported('wide literal')
        body = s[1:-1]
        out = []
        i = 0
        esc = {'n': 10, 't': 9, 'r': 13, '\\': 92, '"': 34, "'": 39, 'a': 7, 'b': 8, 'f': 12, 'v': 11, '0': 0, '?': 63}
        bb = body.encode('utf-8')
        i = 0
        while i < len(bb):
            c = bb[i]
            if c == 92:
                d = chr(bb[i+1])
                if d == 'x':
                    m = re.match(rb'[0-9a-fA-F]+', bb[i+2:])
                    out.append(int(m.group(0), 16) & 255)
                    i += 2 + len(m.group(0))
                    continue
                m = re.match(rb'[0-7]{1,3}', bb[i+1:])
                if m:
                    out.append(int(m.group(0), 8) & 255)
                    i += 1 + len(m.group(0))
                    continue
                out.append(esc[d])
                i += 2
            else:
                out.append(c)
                i += 1
        key = bytes(out)
        if key not in self.lits:
            safe = re.sub(r'[^A-Za-z0-9]', '_', key.decode('latin1'))[:12]
            self.lits[key] = 'strlit_%d_%s' % (len(self.lits), safe)
        return key

    # ------------------------------------------------------------ lvalues
    def is_byref(self, name):
        return self.con is not None and name in self.con.byref

    def field_mem(self, sname, fname, ft):
        nm = 'f_%s__%s' % (sname, fname)
        return nm

    def lval(self, n):
        """returns ('var', name, type) or ('mem', memname, V ptr, type)"""
        n = self.strip(n)
        k = n['kind']
        t = self.tu.ntype(n)
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            ent = self.env.get(d['id'])
            if ent is None:
                if d['kind'] == 'VarDecl':
                    ent = self.global_ent(d)
                else:
                    raise Unsupported('reference to ' + d.get('name', '?'))
            if ent[0] == 'subst':      # by-ref alias inside an inlined function
                return ent[1]
            if ent[0] == 'array':
                return ('array', ent[1], ent[2])
            return ('var', ent[1], ent[2])
        if k == 'UnaryOperator' and n['opcode'] == '*':
            sub = self.strip(n['inner'][0])
            # *target with a by-ref parameter
            base = sub
            while base['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
                base = base['inner'][0]
            if base['kind'] == 'DeclRefExpr':
                ent = self.env.get(base['referencedDecl']['id'])
                if ent and ent[0] == 'byref':
                    return ('var', ent[1], ent[2])
                if ent and ent[0] == 'byreflv':
                    return ent[1]
            p = self.expr(n['inner'][0])
            return self.deref(p, t)
        if k == 'ArraySubscriptExpr':
            a, i = n['inner']
            ta = self.tu.ntype(a)
            if ta[0] == 'int':
                a, i = i, a
            pv = self.expr(a)
            iv = self.expr(i)
            if iv.const == 0:
                return self.deref(pv, t)
            s = self.seq2([pv, iv], lambda x: '(padd %s %s)' % (x[0], x[1]))
            if iv.const == -3 and t == ('int', 64, True):
                # the pool-location word of a pool block: a memory of its own
                self.touch_mem('f_pool__loc', t)
                return ('mem', 'f_pool__loc', V(s, ('ptr', t), pv.impure), t)
            return self.deref(V(s, ('ptr', t), pv.impure or iv.impure), t)
        if k == 'MemberExpr':
            base = n['inner'][0]
            fld = n['name']
            if n.get('isArrow'):
                bp = self.expr(base)
                st = self.tu.ntype(base)[1]
            else:
                bl = self.lval(base)
                st = self.tu.ntype(base)
                if bl[0] == 'structvar' or (bl[0] == 'var' and bl[2][0] == 'struct'):
                    nm = bl[1] + '__' + fld
                    if t[0] == 'array':
                        ent = self.struct_array(bl[1], fld, t)
                        return ('array', ent, t)
                    if nm.startswith('g_') or nm in self.gvars or bl[1] in self.gvars_structs:
                        self.gvars[nm] = t
                    return ('structvar' if t[0] == 'struct' else 'var', nm, t)
                if bl[0] == 'mem':
                    bp = bl[2]
                else:
                    raise Unsupported('member of ' + bl[0])
            if st[0] != 'struct':
                raise Unsupported('member base')
            nm = self.field_mem(st[1], fld, t)
            if t[0] in ('struct',):
                raise Unsupported('nested struct field')
            if t[0] == 'array':
                raise Unsupported('array field via pointer')
            self.touch_mem(nm, t)
            return ('mem', nm, bp, t)
        raise Unsupported('lvalue ' + k)

    gvars_structs = {}

    def deref(self, p, t):
        if t[0] == 'struct':
            return ('mem', None, p, t)
        if t[0] == 'array':
            raise Unsupported('deref to array')
        if t[0] == 'fn':
            raise Unsupported('function pointer')
        nm = memname(t)
        self.touch_mem(nm, t)
        return ('mem', nm, p, t)

    def global_ent(self, d):
        name = d['name']
        gd = self.tu.globals.get(name)
        if gd is None:
            raise Unsupported('unknown variable ' + name)
        t = self.tu.ctype(gd['type']['qualType'])
        wn = self.mangle(name)
        if not wn.startswith('g_'):
            wn = 'g_' + wn
        if t[0] == 'array':
            self.garrays[wn] = t
            return ('array', wn, t)
        if t[0] == 'struct':
            self.gvars_structs = dict(self.gvars_structs)
            self.gvars_structs[wn] = t[1]
            return ('structvar', wn, t)
        self.gvars[wn] = t
        return ('global', wn, t)

    def struct_array(self, base, fld, t):
        nm = base + '__' + fld
        self.garrays[nm] = t
        return nm

    def load(self, lv):
        if lv[0] == 'var':
            return V(lv[1], lv[2])
        if lv[0] == 'mem':
            t = lv[3]
            p = lv[2]
            if lv[1] == 'm_i8' and t[0] == 'int' and not t[2]:
                return V('(wrap_u8 (ld_m_i8 %s))' % p.s, t, p.impure)
            return V('(ld_%s %s)' % (lv[1], p.s), t, p.impure)
        raise Unsupported('load of ' + lv[0])

    def addr(self, n):
        """&lvalue as a ptr"""
        n = self.strip(n)
        if n['kind'] == 'ArraySubscriptExpr':
            a, i = n['inner']
            pv = self.expr(a)
            iv = self.expr(i)
            if iv.const == 0:
                return pv
            s = self.seq2([pv, iv], lambda x: '(padd %s %s)' % (x[0], x[1]))
            return V(s, ('ptr', self.tu.ntype(n)), pv.impure or iv.impure)
        if n['kind'] == 'UnaryOperator' and n['opcode'] == '*':
            return self.expr(n['inner'][0])
        if n['kind'] == 'MemberExpr' and n.get('name') == 'nullElement':
            b = self.strip(n['inner'][0])
            g = b.get('referencedDecl', {}).get('name')
            if g in ('g_NmbrNull', 'g_PntrNull'):
                return self.nullstring(g)
        lv = self.lval(n)
        if lv[0] == 'array':
            return V(lv[1], ('ptr', lv[2][1]))
        raise Unsupported('address of ' + n['kind'])

    def nullstring(self, g):
        """the statically initialised empty number/pointer string"""
        d = self.tu.globals.get(g)
        st = self.tu.ctype(d['type']['qualType'])[1]
        if [f[0] for f in self.tu.structs[st]] != ['poolLoc', 'allocSize', 'actualSize', 'nullElement']:
            raise Unsupported('layout of ' + g)
        import cast
        du = cast.tu('mmdata.c').globals[g]
        ini = [x for x in du.get('inner', []) if x['kind'] == 'InitListExpr']
        sub = FnTranslator(cast.tu('mmdata.c'), '', {}, {})
        vals = [sub.expr(x) for x in ini[0]['inner']] if ini else []
        want = [-1, 8, 8, -1] if g == 'g_NmbrNull' else [-1, 8, 8, 'null']
        got = [v.const if v.const is not None else v.s for v in vals]
        if got != want:
            raise Unsupported('initial value of %s: %s' % (g, got))
        self.nullstrs.add(g)
        return V('(get_nmbr_null ())' if g == 'g_NmbrNull' else '(get_pntr_null ())', ('ptr', ('int', 64, True) if g == 'g_NmbrNull' else ('ptr', ('void',))))

    # ------------------------------------------------------------ conditions
    def cond(self, n):
        """translate n as a boolean"""
        m = self.strip(n)
        k = m['kind']
        if k == 'ImplicitCastExpr' and m['castKind'] in ('IntegralToBoolean', 'PointerToBoolean'):
            return self.cond(m['inner'][0])
        if k == 'UnaryOperator' and m['opcode'] == '!':
            c = self.cond(m['inner'][0])
            return V('(not %s)' % c.s, ('bool',), c.impure)
        if k == 'BinaryOperator':
            op = m['opcode']
            if op in ('&&', '||'):
                a = self.cond(m['inner'][0])
                b = self.cond(m['inner'][1])
                return V('(%s %s %s)' % (a.s, op, b.s), ('bool',), a.impure or b.impure)
            if op in ('==', '!=', '<', '>', '<=', '>='):
                a = self.expr(m['inner'][0])
                b = self.expr(m['inner'][1])
                ta, tb = a.t, b.t
                if ta[0] == 'ptr' or tb[0] == 'ptr':
                    if a.const == 0: a = V('null', ('ptr', ('void',)))
                    if b.const == 0: b = V('null', ('ptr', ('void',)))
                    if op in ('==', '!='):
                        s = self.seq2([a, b], lambda x: '(ptr_eq %s %s)' % (x[0], x[1]))
                        if op == '!=':
                            s = '(not %s)' % s
                    else:
                        f = {'<': 'ptr_lt', '>': 'ptr_gt', '<=': 'ptr_le', '>=': 'ptr_ge'}[op]
                        s = self.seq2([a, b], lambda x: '(%s %s %s)' % (f, x[0], x[1]))
                    return V(s, ('bool',), a.impure or b.impure)
                if ta[0] == 'float' or tb[0] == 'float':
                    f = {'<': 'real_lt', '>': 'real_gt', '<=': 'real_le', '>=': 'real_ge', '==': 'real_eq', '!=': 'real_ne'}[op]
                    s = self.seq2([a, b], lambda x: '(%s %s %s)' % (f, x[0], x[1]))
                    return V(s, ('bool',), a.impure or b.impure)
                o = {'==': '=', '!=': '<>'}.get(op, op)
                s = self.seq2([a, b], lambda x: '(%s %s %s)' % (x[0], o, x[1]))
                return V(s, ('bool',), a.impure or b.impure)
        v = self.expr(m)
        if v.const is not None:
            return V('true' if v.const else 'false', ('bool',))
        if v.t[0] == 'ptr':
            return V('(not (ptr_eq %s null))' % v.s, ('bool',), v.impure)
        if v.t[0] == 'int':
            return V('(%s <> 0)' % v.s, ('bool',), v.impure)
        if v.t[0] == 'float':
            return V('(real_ne %s 0.0)' % v.s, ('bool',), v.impure)
        raise Unsupported('condition type %s' % (v.t,))

    # ------------------------------------------------------------ expressions
    def arith(self, op, a, b, t):
        """integer arithmetic in C type t"""
        if a.const is not None and b.const is not None:
            x, y = a.const, b.const
            r = None
            if op == '+': r = x + y
            elif op == '-': r = x - y
            elif op == '*': r = x * y
            elif op == '/' and y: r = int(x / y) if abs(x) < 2**50 else None
            elif op == '%' and y: r = x - y * int(x / y)
            elif op == '<<' and 0 <= y < 64: r = x << y
            elif op == '>>' and 0 <= y < 64: r = x >> y
            elif op == '&': r = x & y
            elif op == '|': r = x | y
            elif op == '^': r = x ^ y
            if r is not None:
                lo, hi = int_range(t)
                if not t[2]:
                    r = r % (1 << t[1])
                if lo <= r <= hi:
                    return V(lit(r), t, False, r)
        imp = a.impure or b.impure
        tn = tname(t)
        if op in '+-*':
            nm = {'+': 'add', '-': 'sub', '*': 'mul'}[op]
            return V(self.seq2([a, b], lambda x: '(%s_%s %s %s)' % (nm, tn, x[0], x[1])), t, imp)
        if op == '/':
            return V(self.seq2([a, b], lambda x: '(div_%s %s %s)' % (tn, x[0], x[1])), t, imp)
        if op == '%':
            return V(self.seq2([a, b], lambda x: '(mod_%s %s %s)' % (tn, x[0], x[1])), t, imp)
        if op in ('&', '|', '^', '<<', '>>'):
            nm = {'&': 'band', '|': 'bor', '^': 'bxor', '<<': 'bshl', '>>': 'bshr'}[op]
            if op == '&' and a.const is not None and b.const is None:
                a, b = b, a
            return V(self.seq2([a, b], lambda x: '(%s_%s %s %s)' % (nm, tn, x[0], x[1])), t, imp)
        raise Unsupported('operator ' + op)

    def expr(self, n):
        n = self.strip(n)
        k = n['kind']
        m = getattr(self, 'x_' + k, None)
        if m is None:
            raise Unsupported('expression ' + k)
        return m(n)

    def x_IntegerLiteral(self, n):
        v = int(n['value'])
        return V(lit(v), self.tu.ntype(n), False, v)

    def x_CharacterLiteral(self, n):
        v = int(n['value'])
        if v >= 128 and v < 256:
            v -= 256
        return V(lit(v), self.tu.ntype(n), False, v)

    def x_FloatingLiteral(self, n):
        s = n['value']
        from decimal import Decimal
        d = format(Decimal(s), 'f')
        if '.' not in d:
            d += '.0'
        return V(d, ('float', 64))

    def x_StringLiteral(self, n):
        key = self.strlit(n)
        return V('(get_%s ())' % self.lits[key], ('ptr', ('int', 8, True)))

    def x_DeclRefExpr(self, n):
        d = n['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            c = self.tu.enums[d['name']]
            return V(lit(c), ('int', 32, True), False, c)
        lv = self.lval(n)
        if lv[0] == 'array':
            return V(lv[1], ('ptr', lv[2][1]))
        return self.load(lv)

    def x_UnaryExprOrTypeTraitExpr(self, n):
        if n.get('name') != 'sizeof':
            raise Unsupported('trait')
        q = n.get('argType', {}).get('qualType')
        if q is None:
            a = self.strip(n['inner'][0])
            t = self.tu.ntype(a)
        else:
            t = self.tu.ctype(q)
        sz = self.sizeof(t)
        return V(lit(sz), ('int', 64, False), False, sz)

    def sizeof(self, t):
        if t[0] == 'int':
            return max(1, t[1] // 8)
        if t[0] == 'ptr' or t[0] == 'float':
            return 8
        if t[0] == 'array':
            return t[2] * self.sizeof(t[1])
        if t[0] == 'struct':
            off = 0
            al = 1
            for fn, q, dq in self.tu.structs.get(t[1], []):
                ft = self.tu.ctype(q)
                s = self.sizeof(ft)
                a = self.alignof(ft)
                al = max(al, a)
                off = (off + a - 1) // a * a + s
            if off == 0:
                raise Unsupported('sizeof struct ' + t[1])
            return (off + al - 1) // al * al
        raise Unsupported('sizeof')

    def alignof(self, t):
        if t[0] == 'array':
            return self.alignof(t[1])
        if t[0] == 'struct':
            return max(self.alignof(self.tu.ctype(q)) for _, q, _ in self.tu.structs[t[1]])
        return self.sizeof(t)

    def x_ImplicitCastExpr(self, n):
        return self.cast(n)

    def x_CStyleCastExpr(self, n):
        return self.cast(n)

    def cast(self, n):
        ck = n['castKind']
        sub = n['inner'][0]
        t = self.tu.ntype(n)
        if ck == 'LValueToRValue':
            return self.load(self.lval(sub))
        if ck == 'ArrayToPointerDecay':
            s = self.strip(sub)
            if s['kind'] == 'StringLiteral':
                return self.x_StringLiteral(s)
            lv = self.lval(s)
            if lv[0] == 'array':
                return V(lv[1], ('ptr', lv[2][1]))
            raise Unsupported('array decay of ' + lv[0])
        if ck in ('IntegralCast',):
            v = self.expr(sub)
            if v.t[0] == 'bool':
                v = self.b2i(v)
            return self.conv(v, t)
        if ck in ('BitCast', 'NoOp'):
            v = self.expr(sub)
            if v.t[0] == 'ptr' and t[0] == 'ptr':
                self.check_ptrcast(v.t[1], t[1], sub)
                return V(self.malloc_fix(v.s, v.t[1], t[1]), t, v.impure)
            return V(v.s, t, v.impure)
        if ck == 'NullToPointer':
            return V('null', t)
        if ck == 'ToVoid':
            v = self.expr(sub)
            return V(v.s, v.t, v.impure)
        if ck == 'FunctionToPointerDecay':
            return V('null', ('ptr', ('fn', '')))
        if ck == 'IntegralToBoolean' or ck == 'PointerToBoolean':
            return self.b2i(self.cond(sub))
        if ck == 'IntegralToFloating':
            v = self.expr(sub)
            return V('(from_int %s)' % v.s, t, v.impure)
        if ck == 'FloatingCast':
            v = self.expr(sub)
            return V(v.s, t, v.impure)
        if ck == 'FloatingToIntegral':
            v = self.expr(sub)
            return V('(real_to_%s %s)' % (tname(t), v.s), t, v.impure)
        if ck == 'IntegralToPointer':
            v = self.expr(sub)
            if v.const == 0:
                return V('null', t)
        raise Unsupported('cast ' + ck)

    def cls(self, t):
        if t[0] == 'int':
            return t[1] if t[1] > 8 else 8
        if t[0] in ('ptr', 'float'):
            return 64
        if t[0] == 'void':
            return None
        return t

    def check_ptrcast(self, a, b, node):
        ca, cb = self.cls(a), self.cls(b)
        if ca is None or cb is None or ca == cb:
            return
        raise Unsupported('pointer cast between different element sizes')

    def malloc_fix(self, s, a, b):
        # malloc/calloc/realloc results: block size counted in elements of the target type
        if a[0] == 'void' and b[0] != 'void':
            m = re.match(r'^\(c_(malloc|calloc|realloc)_ \(?1\)? ', s)
            if m:
                return s.replace('_ (1) ', '_ %d ' % self.sizeof(b), 1).replace('_ 1 ', '_ %d ' % self.sizeof(b), 1)
        return s

    def b2i(self, c):
        return V('(if %s then 1 else 0)' % c.s, ('int', 32, True), c.impure)

    def x_ConditionalOperator(self, n):
        c = self.cond(n['inner'][0])
        a = self.expr(n['inner'][1])
        b = self.expr(n['inner'][2])
        t = self.tu.ntype(n)
        if t[0] == 'ptr':
            if a.const == 0: a = V('null', t)
            if b.const == 0: b = V('null', t)
        return V('(if %s then %s else %s)' % (c.s, a.s, b.s), t, c.impure or a.impure or b.impure)

    def store_seq(self, lv, val):
        """returns (text of the store given value text, prefix lets)"""
        if lv[0] == 'var':
            return lambda v: '(%s <- %s)' % (lv[1], v), ''
        if lv[0] == 'mem':
            p = lv[2]
            t = lv[3]
            pn = self.fresh('p')
            st = (lambda v: '(st_%s %s %s)' % (lv[1], pn, v)) if not (lv[1] == 'm_i8' and t[0] == 'int' and not t[2]) \
                else (lambda v: '(st_m_i8 %s (wrap_i8 %s))' % (pn, v))
            return st, 'let %s = %s in ' % (pn, p.s)
        raise Unsupported('store to ' + lv[0])

    def x_BinaryOperator(self, n):
        op = n['opcode']
        if op in ('&&', '||', '==', '!=', '<', '>', '<=', '>='):
            return self.b2i(self.cond(n))
        if op == ',':
            a = self.expr(n['inner'][0])
            b = self.expr(n['inner'][1])
            if not a.impure:
                return b
            return V('(let _ = %s in %s)' % (a.s, b.s), b.t, True)
        if op == '=':
            lv = self.lval(n['inner'][0])
            r = self.expr(n['inner'][1])
            t = self.tu.ntype(n['inner'][0])
            if t[0] == 'struct':
                return self.struct_assign(lv, n['inner'][1], t)
            if t[0] == 'ptr' and r.const == 0:
                r = V('null', t)
            if lv[0] == 'var':
                return V('(let v_ = %s in %s <- v_; v_)' % (r.s, lv[1]), t, True)
            st, pre = self.store_seq(lv, r)
            # C leaves the order open; evaluate the right side first when it has effects
            if r.impure:
                return V('(let v_ = %s in %s%s; v_)' % (r.s, pre, st('v_')), t, True)
            return V('(%slet v_ = %s in %s; v_)' % (pre, r.s, st('v_')), t, True)
        a = self.expr(n['inner'][0])
        b = self.expr(n['inner'][1])
        t = self.tu.ntype(n)
        return self.binop(op, a, b, t)

    def struct_assign(self, lv, rn, t):
        raise Unsupported('struct assignment')

    def binop(self, op, a, b, t):
        imp = a.impure or b.impure
        if t[0] == 'ptr':
            if a.t[0] == 'ptr':
                if op == '+':
                    return V(self.seq2([a, b], lambda x: '(padd %s %s)' % (x[0], x[1])), t, imp)
                if op == '-':
                    return V(self.seq2([a, b], lambda x: '(psub %s %s)' % (x[0], x[1])), t, imp)
            else:
                return V(self.seq2([a, b], lambda x: '(padd %s %s)' % (x[1], x[0])), t, imp)
        if a.t[0] == 'ptr' and b.t[0] == 'ptr' and op == '-':
            return V(self.seq2([a, b], lambda x: '(ptr_diff %s %s)' % (x[0], x[1])), t, imp)
        if t[0] == 'float':
            f = {'+': 'real_add', '-': 'real_sub', '*': 'real_mul', '/': 'real_div'}[op]
            return V(self.seq2([a, b], lambda x: '(%s %s %s)' % (f, x[0], x[1])), t, imp)
        if t[0] == 'int':
            return self.arith(op, a, b, t)
        raise Unsupported('binop %s on %s' % (op, t))

    def x_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        lhs, rhs = n['inner']
        t = self.tu.ntype(lhs)
        ct = self.tu.ctype(n['computeResultType']['qualType'])
        lt = self.tu.ctype(n['computeLHSType']['qualType'])
        lv = self.lval(lhs)
        r = self.expr(rhs)
        pre = ''
        if lv[0] == 'mem':
            pn = self.fresh('p')
            pre = 'let %s = %s in ' % (pn, lv[2].s)
            lv = ('mem', lv[1], V(pn, lv[2].t), lv[3])
        cur = self.load(lv)
        if cur.t[0] == 'int' and lt[0] == 'int':
            cur = self.conv(cur, lt)
        elif cur.t[0] == 'int' and lt[0] == 'float':
            cur = V('(from_int %s)' % cur.s, lt)
        res = self.binop(op, cur, r, ct if ct[0] != 'ptr' else t)
        if res.t[0] == 'int' and t[0] == 'int':
            res = self.conv(res, t)
        elif res.t[0] == 'float' and t[0] == 'int':
            res = V('(real_to_%s %s)' % (tname(t), res.s), t, res.impure)
        st, pre2 = self.store_seq(lv, res)
        return V('(%slet v_ = %s in %s%s; v_)' % (pre, res.s, pre2, st('v_')), t, True)

    def x_UnaryOperator(self, n):
        op = n['opcode']
        sub = n['inner'][0]
        t = self.tu.ntype(n)
        if op in ('++', '--'):
            lv = self.lval(sub)
            t = self.tu.ntype(sub)
            pre = ''
            if lv[0] == 'mem':
                pn = self.fresh('p')
                pre = 'let %s = %s in ' % (pn, lv[2].s)
                lv = ('mem', lv[1], V(pn, lv[2].t), lv[3])
            cur = self.load(lv)
            old = self.fresh('o')
            one = V('1', ('int', 32, True), False, 1)
            if t[0] == 'int':
                new = self.arith('+' if op == '++' else '-', V(old, t), one, t)
            elif t[0] == 'ptr':
                new = self.binop('+' if op == '++' else '-', V(old, t), one, t)
            else:
                raise Unsupported('++ on %s' % (t,))
            st, pre2 = self.store_seq(lv, new)
            if n.get('isPostfix'):
                return V('(%slet %s = %s in %s%s; %s)' % (pre, old, cur.s, pre2, st(new.s), old), t, True)
            return V('(%slet %s = %s in let v_ = %s in %s%s; v_)' % (pre, old, cur.s, new.s, pre2, st('v_')), t, True)
        if op == '!':
            return self.b2i(self.cond(n))
        if op == '-':
            v = self.expr(sub)
            if v.const is not None:
                return V(lit(-v.const), t, False, -v.const)
            if t[0] == 'float':
                return V('(real_neg %s)' % v.s, t, v.impure)
            return V('(sub_%s 0 %s)' % (tname(t), v.s), t, v.impure)
        if op == '+':
            return self.expr(sub)
        if op == '~':
            v = self.expr(sub)
            if v.const is not None and t[2]:
                return V(lit(~v.const), t, False, ~v.const)
            if t[2]:
                return V('((-1) - %s)' % v.s, t, v.impure)
            raise Unsupported('~ on unsigned')
        if op == '*':
            return self.load(self.lval(n))
        if op == '&':
            return self.addr(sub)
        raise Unsupported('unary ' + op)

    def x_ArraySubscriptExpr(self, n):
        return self.load(self.lval(n))

    def x_MemberExpr(self, n):
        return self.load(self.lval(n))

    def x_VAArgExpr(self, n):
        t = self.tu.ntype(n)
        if t[0] == 'ptr' and 'variadic' in self.opts:
            return V('(let v_ = va_get va va_i in va_i <- va_i + 1; v_)', t, True)
        raise Unsupported('va_arg')

    # ------------------------------------------------------------ calls
    def callee_name(self, n):
        f = n['inner'][0]
        while f['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            f = f['inner'][0]
        if f['kind'] == 'DeclRefExpr' and f['referencedDecl']['kind'] == 'FunctionDecl':
            return f['referencedDecl']['name']
        raise Unsupported('indirect call')

    def x_CallExpr(self, n):
        name = self.callee_name(n)
        args = n['inner'][1:]
        t = self.tu.ntype(n)
        self.callno[name] = self.callno.get(name, 0) + 1
        self.stmt_calls.append((name, self.callno[name]))
        if name in ('__builtin_va_start', '__builtin_va_end'):
            if 'variadic' not in self.opts:
                raise Unsupported('variadic function')
            return V('(va_i <- 0)' if name.endswith('start') else '()', ('void',), True)
        ov = [o.split() for o in self.opts.get('call', [])]
        for o in ov:
            if o[0] == name:
                name = o[1]
        if name in ' '.join(self.opts.get('drop', [])).split() or (name in ('let', 'free') and args and self.is_msgvar(args[0])):
            self.dropped_calls.add(name)
            return V('(report ())' if t[0] != 'void' else '(let _ = report () in ())', t, True)
        if name in ' '.join(self.opts.get('report', [])).split():    # a message: its text is not evaluated
            self.dropped_calls.add(name)
            ex = name + '_rep'
            if ex not in self.externs_used:
                self.externs_used.append(ex)
            return V('(c_%s ())' % ex, t, True)
        if name in REPORTING:
            self.dropped_calls.add(name)
            return V('(report ())' if t[0] != 'void' else '(let _ = report () in ())', t, True)
        if name == 'outOfMemory':     # ends the process; its message is not evaluated
            self.dropped_calls.add(name)
            if name not in self.externs_used:
                self.externs_used.append(name)
            return V('(c_outOfMemory ())', t, True)
        if name in ('__ctype_b_loc',):
            raise Unsupported('ctype table')
        if name == 'qsort' or name == 'bsearch':
            cmp = self.strip(args[-1])
            while cmp['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr'):
                cmp = cmp['inner'][0]
            cn = cmp['referencedDecl']['name']
            name = name + '__' + cn
            args = args[:-1]
        con = self.contracts.get(name)
        if con is not None:
            return self.call_contract(con, name, args, t)
        if name in self.externs:
            if name not in self.externs_used:
                self.externs_used.append(name)
            vs = []
            for a in args:
                vs.append(self.expr_arg(a))
            if name in ('malloc', 'calloc', 'realloc'):
                s = self.seq2(vs, lambda x: '(c_%s_ %s %s)' % (name, (self.opts.get('mallocunit') or ['1'])[-1], ' '.join(x)))
            else:
                s = self.seq2(vs, lambda x: '(c_%s %s)' % (name, ' '.join(x) if x else '()'))
            return V(s, t, True)
        if name in self.tu.functions and self.inline_depth < 4:
            return self.inline(name, args, t)
        raise Unsupported('call to %s (no contract)' % name)

    def expr_arg(self, a):
        v = self.expr(a)
        return v

    def byref_arg(self, a):
        """argument bound to a by-ref parameter: returns the lvalue"""
        a = self.strip(a)
        while a['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr') and a.get('castKind') in ('BitCast', 'NoOp', None, 'LValueToRValue'):
            a = a['inner'][0]
        if a['kind'] == 'UnaryOperator' and a['opcode'] == '&':
            return self.lval(a['inner'][0])
        if a['kind'] == 'DeclRefExpr':
            ent = self.env.get(a['referencedDecl']['id'])
            if ent and ent[0] == 'byref':
                return ('var', ent[1], ent[2])
            if ent and ent[0] == 'byreflv':
                return ent[1]
        # a computed pointer: treat as memory
        p = self.expr(a)
        if p.t[0] == 'ptr':
            return self.deref(p, p.t[1])
        raise Unsupported('by-reference argument ' + a['kind'])

    def call_contract(self, con, name, args, t):
        self.callees[name] = con
        pre = ''
        post = ''
        names = []
        parts = []
        nparams = len(con.params)
        use = args[:nparams] if nparams < len(args) else args
        if len(use) != nparams:
            raise Unsupported('argument count of ' + name)
        for pn, a in zip(con.params, use):
            if pn in con.byref:
                lv = self.byref_arg(a)
                tmp = self.fresh('r')
                if lv[0] == 'mem':
                    q = self.fresh('p')
                    pre += 'let %s = %s in ' % (q, lv[2].s)
                    lv = ('mem', lv[1], V(q, lv[2].t), lv[3])
                ld = self.load(lv)
                pre += 'let %s = ref %s in ' % (tmp, ld.s)
                st, pre2 = self.store_seq(lv, None)
                post += '%s%s; ' % (pre2, st('%s.contents' % tmp))
                names.append(tmp)
            else:
                v = self.expr_arg(a)
                if v.t[0] == 'bool':
                    v = self.b2i(v)
                tmp = self.fresh('a')
                if v.const is not None or v.s == 'null':
                    names.append(v.s)
                else:
                    pre += 'let %s = %s in ' % (tmp, v.s)
                    names.append(tmp)
        if 'variadic' in con.opts:
            vm = '(va_nil ())'
            for i, a in enumerate(args[nparams:]):
                v = self.expr_arg(a)
                if v.const == 0:
                    v = V('null', ('ptr', ('void',)))
                if v.t[0] != 'ptr':
                    raise Unsupported('variadic argument')
                tmp = self.fresh('a')
                pre += 'let %s = %s in ' % (tmp, v.s)
                vm = '(va_set %s %d %s)' % (vm, i, tmp)
            names.append(vm)
        call = '(c_%s %s)' % (name, ' '.join(names) if names else '()')
        if post:
            res = self.fresh('res')
            return V('(%slet %s = %s in %s%s)' % (pre, res, call, post, res), t, True)
        return V('(%s%s)' % (pre, call) if pre else call, t, True)

    def inline(self, name, args, t):
        fd = self.tu.functions[name]
        params = [x for x in fd['inner'] if x['kind'] == 'ParmVarDecl']
        body = [x for x in fd['inner'] if x['kind'] == 'CompoundStmt'][0]
        if fd.get('variadic'):
            raise Unsupported('variadic inline ' + name)
        self.inline_depth += 1
        pre = ''
        for p, a in zip(params, args):
            pt = self.tu.ctype(p['type']['qualType'])
            st = self.strip(a)
            byref = False
            if pt[0] == 'ptr':
                b = st
                if b['kind'] == 'UnaryOperator' and b['opcode'] == '&' and self.strip(b['inner'][0])['kind'] in ('DeclRefExpr', 'MemberExpr'):
                    byref = True
                else:
                    bb = b
                    while bb['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
                        bb = bb['inner'][0]
                    if bb['kind'] == 'DeclRefExpr':
                        e = self.env.get(bb['referencedDecl']['id'])
                        byref = bool(e and e[0] in ('byref', 'byreflv'))
            if byref:
                try:
                    lv = self.byref_arg(a)
                    if lv[0] == 'var':
                        self.env[p['id']] = ('byreflv', lv)
                        continue
                    elif lv[0] == 'mem':
                        q = self.fresh('p')
                        pre += 'let %s = %s in ' % (q, lv[2].s)
                        self.env[p['id']] = ('byreflv', ('mem', lv[1], V(q, lv[2].t), lv[3]))
                        continue
                except Unsupported:
                    pass
            v = self.expr(a)
            nm = self.newname(p.get('name', 'arg'))
            self.locals.append((nm, pt))
            self.env[p['id']] = ('local', nm, pt)
            pre += '%s <- %s; ' % (nm, v.s)
        ex = 'Inl%d' % (len(self.exceptions) + 1)
        self.exceptions.append((ex, whytype(t)))
        self.retstack.append((ex, t))
        savectx = self.ctx
        self.ctx = []
        b = self.stmt(body)
        self.ctx = savectx
        self.retstack.pop()
        self.inline_depth -= 1
        if t[0] == 'void':
            return V('(%s(try (%s) with %s -> () end))' % (pre, b, ex), t, True)
        return V('(%s(try (%s; absurd) with %s rv_ -> rv_ end))' % (pre, b, ex), t, True)

    # ------------------------------------------------------------ statements
    def join(self, chunks):
        chunks = [c for c in chunks if c.strip() not in ('', '()')]
        if not chunks:
            return '()'
        out = ''
        for i, c in enumerate(chunks):
            c = c.strip()
            last = i == len(chunks) - 1
            if c.startswith('CLOSE'):
                out = out.rstrip().rstrip(';') + '\nend(*CLOSE*))' + ('' if last else ';\n')
                c = c[5:].strip()
                if c:
                    out = out.rstrip().rstrip(';') + ';\n' + self.join([c]) + ('' if last or c.endswith(' in') else ';\n')
                continue
            if c.startswith('OPEN'):
                r = 5 if c.startswith('OPENR') else 4
                out += '(begin (*' + c[:r] + '*)' + c[r:].strip() + '\n'
                continue
            if re.fullmatch(r'\(\*DECL \w+\*\) \(\)', c):
                out += c[:-2] + ('()' if last else '\n')
                continue
            if c.endswith(' in') or c.endswith('\nin'):
                out += c + '\n'
                if last:
                    out += '()'
            else:
                c = c.rstrip(';')
                out += c if last else c + ';\n'
        return out

    def ann(self, *anchor):
        anchor = tuple(str(a) for a in anchor)
        out = []
        if self.con:
            for i, (a, t) in enumerate(self.con.ats):
                if a == anchor:
                    self.attached.add(('at', i))
                    out.append(self.fixtext(t))
        return out

    def fixtext(self, t):
        return t

    def stmt(self, n):
        """unit-typed WhyML text"""
        k = n['kind']
        self.stmt_calls, save = [], self.stmt_calls
        m = getattr(self, 's_' + k, None)
        if m is None:
            s = self.exprstmt(n)
        else:
            s = m(n)
        calls, self.stmt_calls = self.stmt_calls, save
        if k not in ('CompoundStmt', 'WhileStmt', 'ForStmt', 'DoStmt', 'LabelStmt'):
            pre, post = [], []
            for (c, i) in calls:
                pre += self.ann('call', c, i, 'before')
                post += self.ann('call', c, i, 'after')
            if pre or post:
                s = self.join(pre + [s] + post)
                if k != 'IfStmt' or True:
                    pass
        line = n.get('_line')
        if line and s.strip() not in ('', '()'):
            s = '(*L%d*) ' % line + s
        return s

    def exprstmt(self, n):
        m = self.strip(n)
        k = m['kind']
        if k in ('BinaryOperator', 'CompoundAssignOperator') and m['opcode'] in ('=', '+=', '-='):
            l = self.strip(m['inner'][0])
            if l['kind'] == 'DeclRefExpr' and l['referencedDecl']['name'] in STAT_GLOBALS - set(self.opts.get('keep', [])) and l['referencedDecl']['id'] not in self.env:
                return '()'
        # simple forms without value
        if k == 'BinaryOperator' and m['opcode'] == '=':
            t = self.tu.ntype(m['inner'][0])
            if t[0] != 'struct':
                r = self.expr(m['inner'][1])
                lv = self.lval(m['inner'][0])
                if t[0] == 'ptr' and r.const == 0:
                    r = V('null', t)
                if lv[0] == 'var':
                    return '%s <- %s' % (lv[1], r.s)
                if lv[0] == 'mem' and not r.impure and not lv[2].impure and not (lv[1] == 'm_i8' and not t[2]):
                    return 'st_%s %s %s' % (lv[1], lv[2].s, r.s)
                st, pre = self.store_seq(lv, r)
                if r.impure:
                    return '(let v_ = %s in %s%s)' % (r.s, pre, st('v_'))
                return '(%slet v_ = %s in %s)' % (pre, r.s, st('v_'))
        if k == 'BinaryOperator' and m['opcode'] == ',':
            return self.join([self.exprstmt(m['inner'][0]), self.exprstmt(m['inner'][1])])
        if k == 'UnaryOperator' and m['opcode'] in ('++', '--'):
            lv = self.lval(m['inner'][0])
            t = self.tu.ntype(m['inner'][0])
            if lv[0] == 'var':
                one = V('1', ('int', 32, True), False, 1)
                cur = V(lv[1], t)
                op = m['opcode'][0]
                r = self.arith(op, cur, one, t) if t[0] == 'int' else self.binop(op, cur, one, t)
                return '%s <- %s' % (lv[1], r.s)
        if k == 'CompoundAssignOperator':
            lv = self.lval(m['inner'][0])
            if lv[0] == 'var':
                v = self.x_CompoundAssignOperator(m)
                mm = re.match(r'^\(let v_ = (.*) in \(%s <- v_\); v_\)$' % re.escape(lv[1]), v.s, re.S)
                if mm:
                    return '%s <- %s' % (lv[1], mm.group(1))
        v = self.expr(m)
        if not v.impure and not 'ld_' in v.s:
            return '()'
        if v.t[0] == 'void':
            return v.s
        return '(let _ = %s in ())' % v.s

    def s_NullStmt(self, n):
        return '()'

    def s_CompoundStmt(self, n):
        items = n.get('inner', [])
        return self.block(items)

    def gotos(self, n, acc=None):
        acc = [] if acc is None else acc
        if n['kind'] == 'GotoStmt':
            acc.append(n['targetLabelDeclId'])
        for x in n.get('inner', []):
            if isinstance(x, dict) and 'kind' in x:
                self.gotos(x, acc)
        return acc

    def block(self, items):
        # labels at this level? the last label is the outermost, unless code after it jumps back to an earlier label
        labs = [i for i, it in enumerate(items) if it['kind'] == 'LabelStmt']
        pick = None
        if labs:
            pick = labs[-1]
            for q in reversed(labs):
                later = [g for x in items[q:] for g in self.gotos(x)]
                if any(items[e]['declId'] in later for e in labs if e < q):
                    continue
                pick = q
                break
            else:
                pick = labs[0]
        for idx, it in enumerate(items):
            if idx == pick:
                lid = it['declId']
                fwd = any(lid in self.gotos(x) for x in items[:idx])
                bwd = any(lid in self.gotos(x) for x in items[idx:])
                exn = 'Goto_%s' % re.sub(r'\W', '_', it['name'])
                while any(e == exn for e, _ in self.exceptions):
                    exn += '_'
                self.exceptions.append((exn, None))
                self.labels_in_scope.append((lid, exn))
                pre = self.block(items[:idx]) if idx else '()'
                sub = it['inner'][0] if it.get('inner') else {'kind': 'NullStmt'}
                parts = self.ann('before', 'label', it['name'])
                if fwd:
                    parts.append('(try\n%s\nwith %s -> () end)' % (pre, exn))
                else:
                    parts.append(pre)
                if bwd:
                    lp = self.loop_key(it['name'])
                    ex2 = 'Out%d' % (len(self.exceptions) + 1)
                    self.exceptions.append((ex2, None))
                    begin = self.ann('loop', lp, 'begin')
                    end = self.ann('loop', lp, 'end')
                    rest = self.block([sub] + items[idx+1:])
                    inv, _ = self.loop_ann(lp, rest)
                    parts.append('(try while true do %s\n%s(try\n%s;\nraise %s\nwith %s -> %s end) done with %s -> () end)' % (
                        inv, self.prefix(begin), rest, ex2, exn, self.join(end), ex2))
                    parts += self.ann('after', 'loop', lp)
                else:
                    rest = self.block([sub] + items[idx+1:])
                    parts += self.ann('label', it['name'])
                    parts.append(rest)
                return self.join(parts)
        out = []
        for it in items:
            out.append(self.stmt(it))
        return self.join(out)

    def prefix(self, anns):
        if not anns:
            return ''
        s = ''
        for a in anns:
            a = a.strip()
            if a.endswith(' in'):
                s += a + '\n'
            else:
                s += a.rstrip(';') + ';\n'
        return s

    def s_LabelStmt(self, n):
        return self.block([n])

    def s_GotoStmt(self, n):
        for lid, exn in reversed(self.labels_in_scope):
            if lid == n['targetLabelDeclId']:
                return 'raise %s' % exn
        # forward goto to a label of an enclosing block not yet entered
        raise Unsupported('goto')

    def s_DeclStmt(self, n):
        out = []
        for d in n['inner']:
            if d['kind'] == 'VarDecl':
                out.append(self.vardecl(d))
            elif d['kind'] in ('TypedefDecl', 'RecordDecl'):
                raise Unsupported('local type')
        return self.join(out)

    def vardecl(self, d):
        t = self.tu.ctype(d['type']['qualType'])
        if d.get('storageClass') == 'static':
            nm = 'g_%s__%s' % (self.fname, d['name'])
            if t[0] == 'array':
                self.garrays[nm] = t
                self.env[d['id']] = ('array', nm, t)
            else:
                self.gvars[nm] = t
                self.env[d['id']] = ('global', nm, t)
            return '()'
        if d.get('storageClass') == 'extern':
            self.env[d['id']] = self.global_ent(d)
            return '()'
        cname = d['name']
        self.localnames.append((cname, str(t)))
        cname = self.rename.get(cname, cname)
        if t[0] == 'array':
            nm = self.newname(cname)
            self.array_locals.append((nm, t))
            self.env[d['id']] = ('array', nm, t)
            if 'init' in d:
                return self.array_init(nm, t, d)
            return '()'
        if t[0] == 'struct':
            if t[1] in ('va_list', '__va_list_tag'):
                self.env[d['id']] = ('structvar', self.newname(cname), t)
                return '()'
            nm = self.newname(cname)
            self.struct_local(nm, t)
            self.env[d['id']] = ('structvar', nm, t)
            if 'init' in d:
                raise Unsupported('struct init')
            return '()'
        if d['name'] in self.msgvars():
            return '()'
        nm = self.newname(cname)
        self.locals.append((nm, t))
        self.env[d['id']] = ('local', nm, t)
        if 'init' in d:
            e = [x for x in d['inner'] if x['kind'] not in ('FullComment',)][0]
            if e['kind'] == 'InitListExpr':
                raise Unsupported('scalar init list')
            v = self.expr(e)
            if t[0] == 'ptr' and v.const == 0:
                v = V('null', t)
            if v.t[0] == 'bool':
                v = self.b2i(v)
            return '(*DECL %s*) %s <- %s' % (nm, nm, v.s)
        if any(x[0] == 'loop' for x in self.ctx) and t[0] in ('int', 'ptr'):
            return '(*DECL %s*) %s <- any_%s ()' % (nm, nm, tname(t) if t[0] == 'int' else 'ptr')
        return '(*DECL %s*) ()' % nm

    def struct_local(self, nm, t):
        for fn, q, dq in self.tu.structs.get(t[1], []):
            ft = self.tu.ctype(q)
            if ft[0] == 'struct':
                self.struct_local(nm + '__' + fn, ft)
            elif ft[0] == 'array':
                self.array_locals.append((nm + '__' + fn, ft))
                self.garrays_local = True
            else:
                self.used_names.add(nm + '__' + fn)
                self.locals.append((nm + '__' + fn, ft))

    def array_init(self, nm, t, d):
        e = [x for x in d['inner'] if x['kind'] not in ('FullComment',)][0]
        et = t[1]
        mem = memname(et)
        self.touch_mem(mem, et)
        out = []
        if e['kind'] == 'InitListExpr':
            items = e.get('inner', [])
            if 'array_filler' in e:
                items = [x for x in e['array_filler'] if x.get('kind') != 'ImplicitValueInitExpr']
            for i, x in enumerate(items):
                v = self.expr(x)
                out.append('st_%s (padd %s %d) %s' % (mem, nm, i, v.s))
            if len(items) < t[2]:
                if t[2] <= 64:
                    z = 'null' if et[0] == 'ptr' else '0'
                    for i in range(len(items), t[2]):
                        out.append('st_%s (padd %s %d) %s' % (mem, nm, i, z))
                else:
                    raise Unsupported('large array init')
            return self.join(out)
        if e['kind'] == 'StringLiteral':
            key = self.strlit(e)
            bs = list(key) + [0] * (t[2] - len(key))
            if len(bs) > 64:
                raise Unsupported('large string init')
            for i, c in enumerate(bs):
                out.append('st_m_i8 (padd %s %d) %s' % (nm, i, lit(c - 256 if c > 127 else c)))
            return self.join(out)
        raise Unsupported('array init')

    def msgvars(self):
        return ' '.join(self.opts.get('msgvars', [])).split()

    def is_msgvar(self, n):
        while n['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr', 'UnaryOperator', 'ArraySubscriptExpr'):
            n = n['inner'][0]
        return n['kind'] == 'DeclRefExpr' and n['referencedDecl']['name'] in self.msgvars()

    def zero_cond(self, n):
        """a condition that tests a switch the contract requires to be 0"""
        z = ' '.join(self.opts.get('zero', [])).split()
        if not z:
            return None
        while True:
            n = self.strip(n)
            if n['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
                n = n['inner'][0]
            elif n['kind'] == 'BinaryOperator' and n['opcode'] == '&&':
                n = n['inner'][0]
            else:
                break
        if n['kind'] not in ('DeclRefExpr', 'MemberExpr'):
            return None
        lv = self.lval(n)
        return lv[1] if lv[0] == 'var' and lv[1] in z else None

    def s_IfStmt(self, n):
        inner = n['inner']
        z = self.zero_cond(inner[0])
        if z and not n.get('hasElse'):
            return 'assert { [@expl:switch is off] %s = 0 }' % z
        if self.msgvars():
            c0 = self.strip(inner[0])
            if c0['kind'] == 'BinaryOperator' and self.is_msgvar(c0['inner'][0]):
                for b in inner[1:]:
                    if self.stmt(b).replace('(let _ = report () in ())', '').strip() not in ('', '()') and not re.match(r'^(\(\*L\d+\*\) )?\(let _ = report \(\) in \(\)\)$', self.stmt(b).strip()):
                        raise Unsupported('message test with an effect')
                return '()'
        self.ifno = getattr(self, 'ifno', 0) + 1
        ifk = self.ifno
        self.stmt_calls, save = [], self.stmt_calls
        c = self.cond(inner[0])
        condcalls, self.stmt_calls = self.stmt_calls, save
        self.stmt_calls = save
        self.nostmts += 1
        th = self.stmt(inner[1])
        el = self.stmt(inner[2]) if n.get('hasElse') else '()'
        pre = []
        for (cn, i) in condcalls:
            pre += self.ann('call', cn, i, 'before')
        th = self.prefix(self.ann('if', ifk, 'then')) + th
        el = self.prefix(self.ann('if', ifk, 'else')) + el
        s = 'if %s then begin\n%s\nend else begin\n%s\nend' % (c.s, th, el)
        self.stmt_calls = []
        pre = self.ann('before', 'if', ifk) + pre
        post = self.ann('after', 'if', ifk)
        if 'showifs' in self.opts:
            s = '(*IF%d*) ' % ifk + s
        return self.join(pre + [s] + post) if pre or post else s

    def loop_key(self, label=None):
        if label is not None:
            self.loops_seen.append(label)
            return label
        self.loopno += 1
        self.loops_seen.append(str(self.loopno))
        return str(self.loopno)

    def loop_ann(self, key, body=''):
        txt = ''
        var = False
        if self.con and key in self.con.loops:
            self.attached.add(('loop', key))
            txt = self.con.loops[key]
            var = 'variant' in txt
        auto = '' if self.con and 'noauto' in self.opts else self.ranges(body, 'invariant')
        return auto + ' ' + txt, var

    def blocks(self, b):
        """range facts for the variables assigned in the blocks opened with OPENR"""
        st, ins = [], []
        for m in re.finditer(r'\(\*(OPENR?|CLOSE)\*\)', b):
            if m.group(1) != 'CLOSE':
                st.append(m)
            elif st:
                o = st.pop()
                if o.group(1) == 'OPENR':
                    ins.append((o.end(), self.ranges(b[o.end():m.start()], 'ensures')))
        for p, t in sorted(ins, reverse=True):
            b = b[:p] + t + ' ' + b[p:]
        return re.sub(r'\(\*DECL \w+\*\) ?', '', b)

    def ranges(self, body, kw):
        types = {nm: t for nm, t in self.locals}
        types.update({nm: t for nm, t, br in self.params})
        types.update(self.gvars)
        auto = []
        # a variable declared inside is not read after its scope
        decl = set(re.findall(r'\(\*DECL (\w+)\*\)', body))
        for v in sorted(set(re.findall(r'\b(\w+) <- ', body)) - decl):
            t = types.get(v)
            if t and t[0] == 'int' and t[1] > 1:
                auto.append('%s { [@expl:type range] in_%s %s }' % (kw, tname(t), v))
        return ' '.join(auto)

    def newexn(self, base):
        nm = '%s%d' % (base, len(self.exceptions) + 1)
        self.exceptions.append((nm, None))
        return nm

    def loopbody(self, body, key):
        brk = {'used': False, 'name': None}
        cnt = {'used': False, 'name': None}
        self.ctx.append(('loop', brk, cnt))
        b = self.stmt(body)
        self.ctx.pop()
        begin = self.ann('loop', key, 'begin')
        end = self.ann('loop', key, 'end')
        if cnt['used']:
            b = '(try\n%s\nwith %s -> () end)' % (b, cnt['name'])
        return b, brk, begin, end

    def s_WhileStmt(self, n):
        key = self.loop_key()
        inner = n['inner']
        cnode, body = inner[0], inner[-1]
        self.stmt_calls = []
        c = self.cond(cnode)
        b, brk, begin, end = self.loopbody(body, key)
        inv, _ = self.loop_ann(key, c.s + b)
        s = 'while %s do %s\n%s done' % (c.s, inv, self.join(begin + [b] + end))
        if brk['used']:
            s = '(try %s with %s -> () end)' % (s, brk['name'])
        return self.join(self.ann('before', 'loop', key) + [s] + self.ann('after', 'loop', key))

    def s_ForStmt(self, n):
        inner = n['inner']
        init, _, cnode, inc, body = inner
        pre = self.stmt(init) if init and init.get('kind') else '()'
        key = self.loop_key()
        c = self.cond(cnode) if cnode and cnode.get('kind') else V('true', ('bool',))
        b, brk, begin, end = self.loopbody(body, key)
        i = self.exprstmt(inc) if inc and inc.get('kind') else '()'
        inv, _ = self.loop_ann(key, c.s + b + i)
        s = 'while %s do %s\n%s done' % (c.s, inv, self.join(begin + [b] + end + [i]))
        if brk['used']:
            s = '(try %s with %s -> () end)' % (s, brk['name'])
        return self.join([pre] + self.ann('before', 'loop', key) + [s] + self.ann('after', 'loop', key))

    def s_DoStmt(self, n):
        key = self.loop_key()
        body, cnode = n['inner'][0], n['inner'][1]
        b, brk, begin, end = self.loopbody(body, key)
        c = self.cond(cnode)
        inv, _ = self.loop_ann(key, c.s + b)
        if c.s == 'false' and self.con and key not in self.con.loops and not brk['used']:
            return b
        if not brk['used']:
            brk['name'] = self.newexn('Brk')
        mid = self.ann('loop', key, 'cond')
        s = '(try while true do %s\n%s done with %s -> () end)' % (
            inv, self.join(begin + [b] + mid + ['if not (%s) then raise %s' % (c.s, brk['name'])] + end), brk['name'])
        return self.join(self.ann('before', 'loop', key) + [s] + self.ann('after', 'loop', key))

    def s_BreakStmt(self, n):
        c = self.ctx[-1]
        b = c[1]
        if not b['used']:
            b['used'] = True
            b['name'] = self.newexn('Brk')
        return 'raise %s' % b['name']

    def s_ContinueStmt(self, n):
        for c in reversed(self.ctx):
            if c[0] == 'loop':
                b = c[2]
                if not b['used']:
                    b['used'] = True
                    b['name'] = self.newexn('Cnt')
                return 'raise %s' % b['name']
        raise Unsupported('continue')

    def s_ReturnStmt(self, n):
        if self.retstack:
            ex, t = self.retstack[-1]
        else:
            ex, t = 'Ret', self.rettype
        if n.get('inner') and t[0] != 'void':
            v = self.expr(n['inner'][0])
            if t[0] == 'ptr' and v.const == 0:
                v = V('null', t)
            if v.t[0] == 'bool':
                v = self.b2i(v)
            if not self.retstack:
                self.retno += 1
                pre = self.ann('return', self.retno) + self.ann('return', 'any')
                if pre:
                    return '(let rv_ = %s in %s raise (%s rv_))' % (v.s, self.prefix(pre), ex)
            return 'raise (%s %s)' % (ex, v.s)
        pre = []
        if not self.retstack:
            self.retno += 1
            pre = self.ann('return', self.retno) + self.ann('return', 'any')
        return self.join(pre + ['raise %s' % ex])

    def s_SwitchStmt(self, n):
        inner = n['inner']
        v = self.expr(inner[0])
        body = inner[-1]
        if body['kind'] != 'CompoundStmt':
            raise Unsupported('switch body')
        sv = self.newname('sw')
        fl = self.newname('swfall')
        self.locals.append((sv, v.t))
        self.locals.append((fl, ('int', 32, True)))
        groups = []   # (labels or None for default, stmts)
        def unwrap(s):
            labels = []
            while s['kind'] in ('CaseStmt', 'DefaultStmt'):
                if s['kind'] == 'CaseStmt':
                    c = self.expr(s['inner'][0])
                    if c.const is None:
                        raise Unsupported('case label')
                    labels.append(c.const)
                    s = s['inner'][-1]
                else:
                    labels.append('default')
                    s = s['inner'][-1]
            return labels, s
        for s in body.get('inner', []):
            if s['kind'] in ('CaseStmt', 'DefaultStmt'):
                ls, st = unwrap(s)
                groups.append((ls, [st]))
            else:
                if not groups:
                    raise Unsupported('statement before case')
                groups[-1][1].append(s)
        allc = [l for g in groups for l in g[0] if l != 'default']
        brk = {'used': False, 'name': None}
        self.ctx.append(('switch', brk))
        out = ['%s <- %s' % (sv, v.s), '%s <- 0' % fl]
        for ls, sts in groups:
            cs = []
            for l in ls:
                if l == 'default':
                    cs.append('(' + ' && '.join(['true'] + ['not (%s = %s)' % (sv, lit(c)) for c in allc]) + ')')
                else:
                    cs.append('(%s = %s)' % (sv, lit(l)))
            b = self.block(sts)
            out.append('if (%s <> 0) || %s then begin %s <- 1;\n%s end' % (fl, ' || '.join(cs), fl, b))
        self.ctx.pop()
        s = self.join(out)
        if brk['used']:
            s = '(try\n%s\nwith %s -> () end)' % (s, brk['name'])
        return s

    # ------------------------------------------------------------ function
    def run(self):
        fd = self.tu.functions.get(self.fname)
        if fd is None:
            raise Unsupported('function %s not found' % self.fname)
        self.fd = fd
        q = fd['type']['qualType']
        self.rettype = self.tu.ctype(q[:q.index('(')])
        self.retno = 0
        self.rename = {}
        params = [x for x in fd['inner'] if x['kind'] == 'ParmVarDecl']
        body = [x for x in fd['inner'] if x['kind'] == 'CompoundStmt'][0]
        self.params = []
        if len(params) != len(self.con.params):
            raise Unsupported('parameter count of %s changed' % self.fname)
        for p, cn in zip(params, self.con.params):
            pt = self.tu.ctype(p['type']['qualType'])
            nm = self.newname(cn)
            if cn in self.con.byref:
                if pt[0] != 'ptr':
                    raise Unsupported('byref parameter')
                self.env[p['id']] = ('byref', nm, pt[1])
                self.params.append((nm, pt[1], True))
            else:
                self.env[p['id']] = ('local', nm, pt)
                self.params.append((nm, pt, False))
        if 'variadic' in self.opts:
            self.params.append(('va', ('vamap',), False))
            self.used_names |= {'va', 'va_i'}
            self.locals.append(('va_i', ('int', 64, True)))
        self.compute_rename(body)
        entry = self.ann('entry')
        b = self.stmt(body)
        exit_ = self.ann('exit')
        b = self.join(entry + [b] + exit_)
        self.body = self.blocks(b)
        return self

    def collect_locals(self, n, acc):
        if n.get('kind') == 'VarDecl' and n.get('storageClass') not in ('static', 'extern'):
            acc.append((n['name'], str(self.tu.ctype(n['type']['qualType']))))
        for x in n.get('inner', []) or []:
            if isinstance(x, dict):
                self.collect_locals(x, acc)
        return acc

    def compute_rename(self, body):
        cur = self.collect_locals(body, [])
        self.cur_locals = cur
        base = self.baseline.get('locals')
        if base is None:
            return
        curn = [c[0] for c in cur]
        basen = [b[0] for b in base]
        missing = [tuple(b) for b in base if b[0] not in curn]
        extra = [c for c in cur if c[0] not in basen]
        for (n, t) in missing:
            for e in extra:
                if e[1] == t:
                    self.rename[e[0]] = n
                    extra.remove(e)
                    break
