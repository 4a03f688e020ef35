"""Reads the clang AST of a C file of /repo (rebuilt on every run) and offers
the function bodies, typedefs, structs and globals to the translator."""
import json, os, re, subprocess, hashlib

REPO = os.environ.get('VERIF_REPO', '/repo')

class Unsupported(Exception):
    pass

INT_TYPES = {
    'char': ('int', 8, True), 'signed char': ('int', 8, True), 'unsigned char': ('int', 8, False),
    'short': ('int', 16, True), 'unsigned short': ('int', 16, False),
    'int': ('int', 32, True), 'unsigned int': ('int', 32, False), 'unsigned': ('int', 32, False),
    'long': ('int', 64, True), 'unsigned long': ('int', 64, False),
    'long long': ('int', 64, True), 'unsigned long long': ('int', 64, False),
    '_Bool': ('int', 1, False), 'bool': ('int', 1, False), 'long int': ('int', 64, True),
}

class TU:
    """One translation unit."""
    def __init__(self, cfile):
        self.cfile = cfile
        path = os.path.join(REPO, 'src', cfile)
        cmd = ['clang', '-Xclang', '-ast-dump=json', '-fsyntax-only', '-w', '-D__NO_CTYPE', '-I', os.path.join(REPO, 'src'), path]
        if os.environ.get('VERIF_DEFS'):
            cmd[1:1] = os.environ['VERIF_DEFS'].split()
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode != 0:
            raise Unsupported('clang failed on %s: %s' % (cfile, r.stderr.decode(errors='replace')[:300]))
        ast = json.loads(r.stdout)
        self.typedefs = {}
        self.structs = {}
        self.functions = {}
        self.protos = {}
        self.globals = {}
        self.enums = {}
        self.byid = {}
        self._line = 0
        self._file = ''
        last_rec = None
        for d in ast['inner']:
            self._locs(d)
            k = d.get('kind')
            if k == 'TypedefDecl':
                self.typedefs[d['name']] = d['type']['qualType']
                # typedef of anonymous struct
                if last_rec is not None and re.match(r'^(struct )?\(unnamed|^struct \(', d['type']['qualType'] or ''):
                    pass
                t = d['type']['qualType']
                m = re.match(r'^(?:struct|union) (\w+)$', t)
                if last_rec is not None and m and m.group(1) == d['name'] and not last_rec.get('name'):
                    self.structs[d['name']] = self._fields(last_rec)
            elif k == 'RecordDecl':
                last_rec = d
                if d.get('name') and any(x.get('kind') == 'FieldDecl' for x in d.get('inner', [])):
                    self.structs[d['name']] = self._fields(d)
            elif k == 'EnumDecl':
                v = 0
                for c in d.get('inner', []):
                    if c.get('kind') == 'EnumConstantDecl':
                        ev = self._constval(c)
                        if ev is not None:
                            v = ev
                        self.enums[c['name']] = v
                        v += 1
            elif k == 'FunctionDecl':
                if any(x.get('kind') == 'CompoundStmt' for x in d.get('inner', [])):
                    self.functions[d['name']] = d
                self.protos[d['name']] = d
            elif k == 'VarDecl':
                old = self.globals.get(d['name'])
                if old is None or 'init' in d or d.get('inner') :
                    self.globals[d['name']] = d
        del ast

    def _constval(self, n):
        for x in n.get('inner', []):
            if x.get('kind') == 'ConstantExpr' and 'value' in x:
                return int(x['value'])
            r = self._constval(x)
            if r is not None:
                return r
        return None

    def _fields(self, d):
        out = []
        for x in d.get('inner', []):
            if x.get('kind') == 'FieldDecl':
                out.append((x['name'], x['type']['qualType'], x['type'].get('desugaredQualType')))
        return out

    def _locs(self, n):
        """clang omits a line/file equal to the previous one: make them explicit."""
        st = [n]
        def vis(n):
            for key in ('loc',):
                l = n.get(key)
                if isinstance(l, dict):
                    self._upd(l)
            r = n.get('range')
            if isinstance(r, dict):
                self._upd(r.get('begin', {}))
                n['_line'] = self._line
                self._upd(r.get('end', {}))
                n['_endline'] = self._line
            for x in n.get('inner', []) or []:
                if isinstance(x, dict):
                    vis(x)
        vis(n)

    def _upd(self, l):
        if not l:
            return
        if 'spellingLoc' in l:
            self._upd(l['spellingLoc']); self._upd(l.get('expansionLoc', {}))
            return
        if 'line' in l:
            self._line = l['line']
        if 'file' in l:
            self._file = l['file']

    # ---- types
    def ctype(self, q):
        q = q.strip()
        q = re.sub(r'\b(const|volatile|restrict|register|__restrict)\b', ' ', q)
        q = re.sub(r'\s+', ' ', q).strip()
        m = re.match(r'^(.*?)\s*\[(\d*)\]((?:\[\d*\])*)$', q)
        if m and '(' not in q:
            return ('array', self.ctype(m.group(1) + m.group(3)) if m.group(3) else self.ctype(m.group(1)), int(m.group(2) or 0))
        if '(' in q:
            m = re.match(r'^(.*)\(\*\)\((.*)\)$', q)
            if m:
                return ('ptr', ('fn', q))
            if q.startswith('struct (unnamed'):
                return ('struct', q)
            return ('fn', q)
        if q.endswith('*'):
            return ('ptr', self.ctype(q[:-1]))
        if q in INT_TYPES:
            return INT_TYPES[q]
        if q in ('double', 'float', 'long double'):
            return ('float', 64)
        if q == 'void':
            return ('void',)
        if q.startswith('struct '):
            return ('struct', q[7:])
        if q.startswith('union '):
            return ('struct', q[6:])
        if q.startswith('enum '):
            return ('int', 32, False)
        if q in self.typedefs:
            u = self.typedefs[q]
            if u in ('struct ' + q,):
                return ('struct', q)
            return self.ctype(u)
        if q in self.structs:
            return ('struct', q)
        if q in ('__builtin_va_list', 'va_list', '__va_list_tag'):
            return ('struct', 'va_list')
        raise Unsupported('type ' + q)

    def ntype(self, n):
        t = n['type']
        return self.ctype(t['qualType']) if not t['qualType'].startswith('typeof') else self.ctype(t['desugaredQualType'])

_cache = {}
def tu(cfile):
    if cfile not in _cache:
        _cache[cfile] = TU(cfile)
    return _cache[cfile]
