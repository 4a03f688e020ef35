"""Parser of the sidecar contract files (/verif/contracts/*.ct)."""
import os, re, glob

KEYWORDS = set('''abstract absurd alias any as assert assume at axiom begin break by check clone coinductive
constant continue diverges do done downto else end ensures epsilon exception exists export false float for
forall fun function ghost goal if import in inductive invariant label lemma let match meta module mutable
not old partial predicate private pure raise raises reads rec ref requires result return returns scope so
then theory to true try type use val variant while with writes range'''.split())

class Contract:
    def __init__(self, name, params, fileh=None):
        self.name = name
        self.params = params
        self.file = fileh
        self.byref = set()
        self.requires = []
        self.ensures = []
        self.writes = []
        self.diverges = False
        self.noreturn = False
        self.noproof = False      # contract assumed (never counted as proved)
        self.loops = {}
        self.ats = []             # (anchor tuple, text)
        self.uses = []            # library modules
        self.opts = {}
        self.src = ''
        self.hide = []

class ContractError(Exception):
    pass

def _block(txt, i):
    """txt[i] == '{': returns (inner, index after)"""
    d = 0
    j = i
    while j < len(txt):
        if txt[j] == '{':
            d += 1
        elif txt[j] == '}':
            d -= 1
            if d == 0:
                return txt[i+1:j], j+1
        j += 1
    raise ContractError('unbalanced block: ' + txt[i:i+60])

def parse_file(path):
    txt = open(path).read()
    txt = re.sub(r'(?m)^\s*#.*$', '', txt)
    txt = re.sub(r'\(\*.*?\*\)', '', txt, flags=re.S)
    out = {}
    externs = {}
    macros = {}
    i = 0
    cur = None
    n = len(txt)
    deffile = None
    defuses = []
    defopts = []
    while True:
        m = re.compile(r'\s*').match(txt, i)
        i = m.end()
        if i >= n:
            break
        m = re.compile(r'(\w+)').match(txt, i)
        if not m:
            raise ContractError('%s: cannot parse at: %s' % (path, txt[i:i+80]))
        kw = m.group(1)
        i = m.end()
        def rest_line():
            nonlocal i
            j = txt.find('\n', i)
            if j < 0:
                j = n
            s = txt[i:j].strip()
            i = j
            return s
        def block():
            nonlocal i
            m = re.compile(r'\s*').match(txt, i)
            i = m.end()
            if i >= n or txt[i] != '{':
                raise ContractError('%s: block expected at: %s' % (path, txt[i:i+80]))
            b, i = _block(txt, i)
            return re.sub(r'\$(\w+)', lambda m: macros[m.group(1)], b)
        if kw == 'define':
            nm = re.compile(r'\s*(\w+)').match(txt, i)
            i = nm.end()
            macros[nm.group(1)] = block().strip()
            continue
        if kw == 'file':
            deffile = rest_line()
        elif kw == 'usesall':
            defuses = rest_line().split()
        elif kw == 'optall':
            defopts.append(rest_line().split(None, 1))
        elif kw == 'extern':
            nm = re.compile(r'\s*(\w+)').match(txt, i)
            i = nm.end()
            externs[nm.group(1)] = block()
            cur = None
        elif kw == 'fn':
            s = rest_line()
            m = re.match(r'(\w+)\s*\((.*)\)\s*$', s)
            if not m:
                raise ContractError('%s: bad fn line %s' % (path, s))
            ps = [p.strip() for p in m.group(2).split(',') if p.strip()]
            cur = Contract(m.group(1), ps, deffile)
            cur.uses = list(defuses)
            for o in defopts:
                cur.opts.setdefault(o[0], []).append(o[1] if len(o) > 1 else '')
            cur.src = os.path.basename(path)
            if cur.name in out:
                raise ContractError('%s: duplicate %s' % (path, cur.name))
            out[cur.name] = cur
        elif kw == 'uses':
            cur.uses += rest_line().split()
        elif kw == 'byref':
            cur.byref |= set(rest_line().replace(',', ' ').split())
        elif kw == 'writes':
            cur.writes += rest_line().replace(',', ' ').split()
        elif kw in ('diverges', 'noreturn', 'noproof'):
            setattr(cur, kw, True)
        elif kw == 'opt':
            s = rest_line().split(None, 1)
            cur.opts.setdefault(s[0], []).append(s[1] if len(s) > 1 else '')
        elif kw in ('requires', 'ensures'):
            m = re.compile(r'\s*(?:\[([^\]]*)\])?\s*').match(txt, i)
            i = m.end()
            b = block()
            getattr(cur, kw).append((m.group(1), b.strip()))
        elif kw == 'loop':
            m = re.compile(r'\s*(\w+)').match(txt, i)
            i = m.end()
            cur.loops[m.group(1)] = block()
        elif kw == 'at':
            j = txt.find('{', i)
            anchor = tuple(txt[i:j].split())
            i = j
            cur.ats.append((anchor, block()))
        else:
            raise ContractError('%s: unknown keyword %s' % (path, kw))
    return out, externs

def load_all(d):
    fns, ext = {}, {}
    for p in sorted(glob.glob(os.path.join(d, '*.ct'))):
        f, e = parse_file(p)
        for k in f:
            if k in fns:
                raise ContractError('duplicate contract ' + k)
        fns.update(f)
        ext.update(e)
    return fns, ext
