#!/usr/bin/env python3
"""check.py PROPERTY : decide one property on /repo's current working tree.

exit 0: every obligation discharged (or, where the extraction could not be brought
        to the source any more, the bounded stand-in found nothing)
exit 1: VIOLATION line
"""
import sys, os, time, json, shutil, subprocess, re, hashlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import contracts, emit, prove, props, hunt
import cast
from cast import Unsupported
import c2why

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(VERIF, '.work')

def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'^known: property=(\S+) (.*)$', l)
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out

def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    P = props.PROPS[pid]
    wd = os.path.join(WORK, pid)
    if os.path.isdir(wd):
        shutil.rmtree(wd)
    os.makedirs(wd)
    try:
        baseline = json.load(open(os.path.join(emit.CDIR, 'baseline.json')))
    except Exception:
        baseline = {}
    fns, ext = contracts.load_all(emit.CDIR)
    libtxt = ''.join(open(os.path.join(emit.CDIR, l)).read() + '\n' for l in props.LIBS)
    undecided = []     # (function, reason)
    failures = []      # (function, goal, info)
    goals_all = []     # (owner, file, lines)
    owner_lines = {}
    infos = {}
    smoke_goals = []
    from concurrent.futures import ThreadPoolExecutor
    # ---- libraries (lemmas)
    mods = []
    def need(m):
        if m not in mods:
            mods.append(m)
    need('Mem')
    for f in P['functions']:
        for u in fns[f].uses:
            need(u)
    jobs = []
    for m in mods:
        mlw = os.path.join(wd, 'lib_%s.mlw' % m)
        open(mlw, 'w').write(libtxt)
        jobs.append(('lib:' + m, mlw, m, libtxt))
    # ---- functions
    for f in P['functions']:
        con = fns[f]
        try:
            txt, info = emit.build(f, con.file, fns, ext, props.LIBS, baseline.get(f), smoke=True)
            infos[f] = info
            mlw = os.path.join(wd, f + '.mlw')
            open(mlw, 'w').write(txt)
            jobs.append((f, mlw, 'Fn_' + f, txt))
        except Unsupported as e:
            undecided.append((f, 'extraction: %s' % e))
        except Exception as e:
            undecided.append((f, 'extraction: %s: %s' % (type(e).__name__, e)))
    # functions with very many obligations are solved while why3 is still printing them
    budget_p = prove.Budget(t0 + P.get('proof_s', 540), P.get('maxfail', 16))
    streaming = any('stream' in fns[f].opts for f in P['functions'])
    streamer = ThreadPoolExecutor(max(1, prove.NCPU - 1))
    streamed = {}
    def vcg(j):
        owner, mlw, th, txt = j
        sub = None
        if streaming:
            def sub(g):
                if prove.is_probe(g):
                    return
                streamed[g] = streamer.submit(prove.solve, g, prove.FAST, budget_p)
        gs, err = prove.why3_goals(mlw, th, mlw[:-4] + '_goals', timeout=P.get('proof_s', 600), submit=sub)
        return j, gs, err
    noblig = []
    with ThreadPoolExecutor(prove.NCPU) as ex:
        for (owner, mlw, th, txt), gs, err in ex.map(vcg, jobs):
            lines = txt.split('\n')
            owner_lines[owner] = lines
            if err:
                if owner.startswith('lib:'):
                    failures.append((owner, 'why3', err))
                else:
                    undecided.append((owner, 'why3: ' + err[:300]))
                continue
            probes = [g for g in gs if prove.is_probe(g)]
            if len(probes) == len(gs) and not owner.startswith('lib:'):
                noblig.append(owner)
            smoke_goals += [(owner, g) for g in probes]
            for g in gs:
                if g not in probes:
                    goals_all.append((owner, g))
    tgen = time.time() - t0
    # ---- discharge
    res = prove.run_goals([g for _, g in goals_all if g not in streamed], prove.FAST, budget=budget_p)
    for g, fu in streamed.items():
        res[g] = fu.result()
    left = [g for _, g in goals_all if not res[g][0] and res[g][3] != [prove.NOT_TRIED]]
    if left and len(left) <= 24:
        r2 = prove.run_goals(left, prove.PORTFOLIO[len(prove.FAST):], budget=prove.Budget(t0 + P.get('proof_s', 540) + 60, 8))
        for g in left:
            if r2[g][0]:
                res[g] = (True, r2[g][1], res[g][2] + r2[g][2], [])
            else:
                res[g] = (False, None, res[g][2] + r2[g][2], res[g][3] + r2[g][3])
    backends = {}
    solver_s = 0.0
    per_fn = {}
    open_ = {}         # obligations not tried: time was up or the function had failed already
    for owner, g in goals_all:
        ok, solver, secs, log = res[g]
        solver_s += secs
        a = per_fn.setdefault(owner, [0, 0, 0.0])
        a[0] += 1
        a[2] += secs
        if not ok and log == [prove.NOT_TRIED]:
            open_[owner] = open_.get(owner, 0) + 1
            continue
        if ok:
            a[1] += 1
            backends[solver] = backends.get(solver, 0) + 1
        else:
            ln, src, cl = prove.goal_info(g, owner_lines[owner])
            t = open(g).read()
            failures.append((owner, '%s obligation %s (C line %s, %s)' % (owner, os.path.basename(g)[:-5].split('-')[-1], cl, src[:160]),
                             'solvers: %s\n%s' % ('; '.join(log), t[t.rindex(';; Goal'):])))
    # ---- vacuity
    vac = []
    sm_sel = smoke_goals
    sres = prove.run_goals([g for _, g in sm_sel], [('z3-new', ['z3-new', '-T:2'], 2)])
    smoke_ok = 0
    by_fn = {}
    for f, g in sm_sel:
        by_fn.setdefault(f, []).append(sres[g][0])
    for f, l in by_fn.items():
        smoke_ok += sum(1 for x in l if not x)
        if l and l[0]:                # entry point refuted: contradictory precondition
            vac.append(f)
        elif len(l) > 1 and all(l[1:]):   # no exit reachable
            vac.append(f)
    # functions whose source moved away from the annotations
    moved = {}
    for f, info in infos.items():
        b = baseline.get(f, {})
        r = []
        if info['missing']:
            r.append('annotations without a place: ' + ', '.join(info['missing']))
        if b and b.get('nloops') != info['nloops']:
            r.append('number of loops changed from %s to %s' % (b.get('nloops'), info['nloops']))
        if r:
            moved[f] = '; '.join(r)
    hard = [x for x in failures if x[0] not in moved]
    soft = [x for x in failures if x[0] in moved]
    for f in noblig:
        undecided.append((f, 'no obligations generated'))
    for f in vac:
        undecided.append((f, 'vacuity probe: contradictory assumptions'))
    for x in soft:
        if not any(u[0] == x[0] for u in undecided):
            undecided.append((x[0], 'source moved away from its annotations (%s), obligations open' % moved[x[0]]))
    for f, n in open_.items():
        if not any(x[0] == f for x in hard) and not any(u[0] == f for u in undecided):
            undecided.append((f, '%d obligations not tried within the time limit' % n))
    # ---- bounded stand-in / search for a failing input
    always = P.get('bounded', [])
    hunted = None
    budget = P.get('hunt_s', 60)
    if tier == 'thorough':
        budget *= 4
    if failures or undecided or always or tier == 'thorough':
        full = bool(failures or undecided or tier == 'thorough')
        hunted = hunt.run(pid, dict(P, known=[k.split(' ')[0] for k in known_findings(pid)]), seed, budget if full else P.get('bounded_s', 20), wd)
    known = known_findings(pid)
    viol = 0
    rep = os.path.join(VERIF, 'replay')
    lines_out = []
    code = 0
    if hunted and hunted['fail'] and hunted['fail'].get('key') in [k.split(' ')[0] for k in known]:
        hunted['fail'] = None      # a listed finding
    if hunted and hunted['fail']:
        os.makedirs(rep, exist_ok=True)
        rp = os.path.join(rep, '%s.txt' % pid)
        with open(rp, 'w') as o:
            o.write('property %s\nfailing input found against the real code:\n%s\n\nreplay: %s\n' % (pid, hunted['fail']['text'], hunted['cmd']))
            for x in failures[:20]:
                o.write('\nfailed obligation: %s\n%s\n' % (x[1], x[2]))
            for u in undecided:
                o.write('\nundecided: %s: %s\n' % u)
        lines_out.append('VIOLATION property=%s replay=%s' % (pid, rp))
        viol += 1
        code = 1
    elif hard:
        os.makedirs(rep, exist_ok=True)
        rp = os.path.join(rep, '%s.txt' % pid)
        with open(rp, 'w') as o:
            o.write('property %s: obligations that the verifier no longer discharges (no failing input found)\n' % pid)
            for x in hard[:40]:
                o.write('\nfailed obligation: %s\n%s\n' % (x[1], x[2]))
        lines_out.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
        viol += 1
        code = 1
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    nob = len(goals_all)
    ndis = sum(1 for o, g in goals_all if res[g][0])
    assumed_ext = sorted(set(e for i in infos.values() for e in i['externs']))
    claimed = set(P['functions'])
    callee = sorted(set(c for i in infos.values() for c in i['callees']))
    elsewhere = [c for c in callee if c not in claimed and not fns[c].noproof]
    assumed = [c for c in callee if fns[c].noproof]
    axioms = []
    for m in mods:
        mt = re.search(r'(?ms)^module %s\b(.*?)^end' % m, libtxt)
        if mt:
            axioms += ['%s.%s' % (m, a) for a in re.findall(r'\baxiom (\w+)', mt.group(1))]
    trusted = ['clang 18 AST and /verif/tool/c2why.py (extraction)', 'Why3 1.6.0 VC generation', 'z3 5.3.2 / z3 4.8.12 / cvc5 1.1.2 (unsat answers)',
               'LP64 two\'s complement, memory blocks at most 2^40 elements']
    trusted += ['assumed C library contract: ' + e for e in assumed_ext]
    trusted += ['assumed contract (not proved): ' + c for c in assumed]
    trusted += ['contract proved by another check: ' + c for c in elsewhere]
    trusted += ['definitional axiom ' + a for a in axioms]
    dropped = list(c2why.DROPPED)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': P['level'],
        'coverage': {
            'obligations': nob, 'discharged': ndis,
            'checker_cmd': 'why3 prove -D z3_487.drv -a split_vc FILE.mlw; z3-new|cvc5|z3 on each goal (python3 tool/check.py %s)' % pid,
            'trusted_base': trusted,
            'functions_under_contract': {f: {'file': fns[f].file, 'obligations': per_fn.get(f, [0, 0, 0])[0],
                                             'discharged': per_fn.get(f, [0, 0, 0])[1], 'solver_s': round(per_fn.get(f, [0, 0, 0.0])[2], 2)} for f in P['functions']},
            'lemma_obligations': {o[4:]: {'obligations': a[0], 'discharged': a[1]} for o, a in per_fn.items() if o.startswith('lib:')},
            'backends': backends, 'solver_s': round(solver_s, 2), 'vcgen_s': round(tgen, 2),
            'vacuity_probes': len(sm_sel), 'vacuity_probes_not_refuted': smoke_ok,
            'undecided': ['%s: %s' % u for u in undecided],
            'extraction_drops': dropped,
            'renamed_locals': {f: i['rename'] for f, i in infos.items() if i['rename']},
        },
        'assumptions': P.get('assumptions', []) + ['extraction drops: ' + d for d in dropped],
        'wall_s': round(time.time() - t0, 2),
        'violations': viol,
    }
    if hunted:
        ev['coverage']['bounded_stand_in'] = {'label': 'bounded, not counted as proved', 'harness': P.get('hunt'), 'functions': always,
                                              'evaluations': hunted['evaluations'], 'bound': hunted['bound'], 'note': hunted.get('note', '')}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev['wall_s'] = round(time.time() - t0, 2)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d functions, %d/%d obligations discharged, %d vacuity probes (%d open as they must be), %.1f s' % (
        pid, len(P['functions']), ndis, nob, len(sm_sel), smoke_ok, time.time() - t0))
    for u in undecided:
        print('undecided: %s: %s' % u)
    if hunted:
        print('bounded stand-in: %d evaluations, %s' % (hunted['evaluations'], 'FAILED' if hunted['fail'] else 'nothing found'))
    for x in failures[:10]:
        print('open obligation: %s' % x[1])
    for l in lines_out:
        print(l)
    if not os.environ.get('VERIF_KEEP'):
        shutil.rmtree(wd, ignore_errors=True)
    sys.exit(code)

if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        sys.exit(2)
