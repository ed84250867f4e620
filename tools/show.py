"""show.py SEED MIX CASE [MAXLINE]: runs one generated case and prints its trace and disagreements."""
import sys, gen, vg
seed, spec, no = sys.argv[1], sys.argv[2], int(sys.argv[3])
mix = {}
for x in spec.split(','):
    f, n = x.split('=')
    mix.update({k: int(n) for k in gen.FAMILIES} if f == 'all' else {f: int(n)})
c = dict(gen.cases(mix, seed))[no]
drv, _ = vg.build_driver()
r = vg.run_cases(drv, [(no, c)], keep='/tmp/show')
hi = int(sys.argv[4]) if len(sys.argv) > 4 else 10 ** 9
import json
for l in open('/tmp/show.0'):
    if json.loads(l)['n'] <= hi:
        print(l.strip()[:1500])
for b in r['bads']:
    print(b)
open('/tmp/bad.script', 'w').write(vg.script_of([(no, c)]))
