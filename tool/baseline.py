#!/usr/bin/env python3
"""Records the local variables and loop count of each function under contract (contracts/baseline.json):
used to map renamed locals, and to recognise that a source moved away from its annotations.
Run by hand on the unchanged tree only."""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import contracts, emit, props
fns, ext = contracts.load_all(emit.CDIR)
out = {}
for f, con in sorted(fns.items()):
    if con.noproof:
        continue
    try:
        txt, info = emit.build(f, con.file, fns, ext, props.LIBS, None)
    except Exception as e:
        print('%s: %s' % (f, e)); continue
    if info['missing']:
        print('%s: unattached %s' % (f, info['missing']))
    out[f] = {'locals': info['locals'], 'nloops': info['nloops']}
json.dump(out, open(os.path.join(emit.CDIR, 'baseline.json'), 'w'), indent=0, sort_keys=True)
print(len(out), 'functions')
