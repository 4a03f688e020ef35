#!/usr/bin/env python3
"""Developer front end: vc.py [-k] [-s] FUNCTION... : prove functions, print what fails."""
import sys, os, time, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import contracts, emit, prove
from cast import Unsupported
import props
def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    smoke = '-s' in sys.argv
    fast = '-f' in sys.argv
    fns, ext = contracts.load_all(emit.CDIR)
    wd = '/tmp/vc'
    os.makedirs(wd, exist_ok=True)
    if not args:
        args = [f for f in fns if not fns[f].noproof]
    for fn in args:
        t0 = time.time()
        if fn[0].isupper():
            txt = ''.join(open(os.path.join(emit.CDIR, l)).read() + '\n' for l in props.LIBS)
            mlw = '%s/%s.mlw' % (wd, fn)
            open(mlw, 'w').write(txt)
            info = {'missing': [], 'unannotated': []}
            gs, err = prove.why3_goals(mlw, fn, '%s/%s' % (wd, fn))
        else:
          try:
            con = fns[fn]
            txt, info = emit.build(fn, con.file, fns, ext, props.LIBS, smoke=smoke)
          except Unsupported as e:
            print('%-24s UNSUPPORTED %s' % (fn, e)); continue
          mlw = '%s/%s.mlw' % (wd, fn)
          open(mlw, 'w').write(txt)
          gs, err = prove.why3_goals(mlw, 'Fn_' + fn, '%s/%s' % (wd, fn))
        if err:
            print('%-24s WHY3 ERROR %s' % (fn, err[:1500])); continue
        t1 = time.time()
        import hashlib, re
        cd = '/tmp/vc/cache'; os.makedirs(cd, exist_ok=True)
        key = {g: hashlib.sha1(re.sub(r'(?m)^;;.*$', '', open(g).read()).encode()).hexdigest() for g in gs}
        rng = [a for a in sys.argv if re.match(r'-l\d+-\d+$', a)]
        lns = txt.split('\n')
        sel = gs
        if rng:
            a, b = map(int, rng[0][2:].split('-'))
            sel = [g for g in gs if a <= prove.goal_info(g, lns)[0] <= b]
        todo = [g for g in sel if not os.path.exists(os.path.join(cd, key[g]))]
        res = {g: (True, 'cache', 0, []) for g in gs}
        res.update(prove.run_goals(todo, prove.FAST if fast else prove.PORTFOLIO))
        for g in todo:
            if res[g][0]:
                open(os.path.join(cd, key[g]), 'w').close()
        bad = [g for g in gs if not res[g][0]]
        slow = max([res[g][2] for g in gs] + [0])
        print('%-24s %d/%d goals, vcgen %.1fs, solve %.1fs, slowest %.1fs %s%s' % (fn, len(gs) - len(bad), len(gs), t1 - t0, time.time() - t1, slow,
              'MISSING ' + str(info['missing']) if info['missing'] else '', ' UNANN ' + str(info['unannotated']) if info['unannotated'] else ''))
        lines = txt.split('\n')
        print('   to do %d selected %d' % (len(todo), len(sel)))
        for g in bad[:40]:
            ln, src, cl = prove.goal_info(g, lines)
            print('   FAIL %s mlw:%d C:%s %s  [%s]' % (os.path.basename(g).split('qtvc')[-1], ln, cl, src[:110], ';'.join(x.split(':')[1][:3] for x in res[g][3])))
            if '-v' in sys.argv:
                t = open(g).read(); i = t.rindex(';; Goal'); print('        ' + ' '.join(t[i:].split())[:600])
        sys.stdout.flush()
main()
