#!/usr/bin/env python3
"""replay.py FILE: run the failing input of a violation again in the real code
and compare with the specification.  Exit 1 if it still fails, 0 if not."""
import base64, json, os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.dont_write_bytecode = True
import common as C, scan

r = json.load(open(sys.argv[1]))
print(r['summary'])
if r['kind'] == 'scan':
    lics = [dict(l, lre=base64.b64decode(l['lre']), url=base64.b64decode(l['url'])) for l in r['lics']]
    B = scan.Batch()
    B.add(lics, [base64.b64decode(t) for t in r.get('before', [])] + ([] if r['text'] is None else [base64.b64decode(r['text'])]))
    b = C.build('vdriver')
    B.run(b)
    bad, _ = B.check(b, [r['property']])
    for x in bad:
        print('FAILS', x)
    sys.exit(1 if bad else 0)
if r['kind'] == 'old':
    import oldprop
    bad = oldprop.replay(r)
    for x in bad:
        print('FAILS', x)
    sys.exit(1 if bad else 0)
# everything else: the check itself, with the seed that found it
s = r.get('session', {})
env = dict(os.environ, VERIF_SEED=str(s.get('seed', 1)), VERIF_TIER=s.get('tier', 'quick'))
sys.exit(subprocess.call([sys.executable, os.path.join(C.VERIF, 'bin', 'check.py'), r['property']], env=env))
