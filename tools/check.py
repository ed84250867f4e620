#!/usr/bin/env python3
"""check.py PROPERTY : decides one property (tier from VERIF_TIER, seed from VERIF_SEED).

1. TLC explores the specification (spec/MC_*.tla) exhaustively within small constants.
2. Behaviours are generated: by TLC from the specification (spec/Gen*.tla) and by seeded generators.
3. The real code, built from the current tree, executes them; every call is recorded.
4. TLC validates each recorded event as a step of the specification (spec/Trace.tla).
"""
import json, os, re, shutil, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import gen, plan, vg

KNOWN = os.path.join(vg.VERIF, 'known_findings.txt')


def known_findings(prop):
    """{op|what: text} of the findings recorded for the property (fixed entries suppress nothing)"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'finding: property=(\S+) case=(\S+) what="([^"]*)" (.*)', line.strip())
            if m and m.group(1) == prop:
                out[(m.group(2), m.group(3))] = m.group(4)
    return out


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    os.makedirs(vg.BUILD, exist_ok=True)
    p = plan.PLAN[prop]
    thorough = tier == 'thorough'
    with ThreadPoolExecutor(16) as ex:
        fb = ex.submit(vg.build_driver)
        fm = [(m, ex.submit(plan.model_check, m, thorough)) for m in p.get('mc', [])]
        fg = [(g, ex.submit(plan.generate, g, seed, thorough)) for g in p.get('gen', [])]
        driver, kind = fb.result()
        mcs = [(m, f.result()) for m, f in fm]
        cases = []
        origin = {}
        gens = {}
        for g, f in fg:
            scripts = f.result()
            gens[g] = len(scripts)
            for s in scripts:
                cases.append((len(cases) + 1, s))
                origin[len(cases)] = 'TLC ' + g
    rounds = 1
    mix = p['mix']
    if thorough:
        rounds = int(os.environ.get('VG_ROUNDS', '12'))
    findings = known_findings(prop)
    viol, known = [], []
    tot = {'lines': 0, 'states': 0, 'transitions': 0, 'ops': {}}
    executed = distinct = 0
    samples = []
    seen = set()
    for rnd in range(rounds):
        batch = cases if rnd == 0 else []
        first = len(batch) + 1
        extra = gen.cases(mix, '%d.%d' % (seed, rnd), first, 0.1 if not thorough else 0.2)
        names = [f for f, n in mix.items() for _ in range(n)]
        for (no, _), f in zip(extra, names):
            origin[no] = f
        batch = batch + extra
        res = vg.run_cases(driver, batch)
        byno = dict(batch)
        executed += len(batch)
        for no, lines in batch:
            h = hash(tuple(lines))
            if h not in seen:
                seen.add(h)
                distinct += 1
        for k in ('lines', 'states', 'transitions'):
            tot[k] += res[k]
        for k, v in res['ops'].items():
            tot['ops'][k] = tot['ops'].get(k, 0) + v
        if len(samples) < 3:
            rel = [b for b in batch if any(w[0] == b[0] for w in [(b[0],)])]
            for no in sorted({rel[0][0], rel[len(rel) // 2][0], rel[-1][0]}):
                samples.append({'from': origin[no], 'script': [l[:200] for l in byno[no][:12]]})
        for b in res['bads']:
            if prop in b[3] or 'ALL' in b[3]:
                viol.append((b, byno[b[0]], origin[b[0]]))
        if viol:
            break
    # confirm by running the single case again
    reported = None
    done = set()
    for b, lines, org in viol:
        if b[0] in done or len(done) >= 8:
            continue
        done.add(b[0])
        again = vg.run_cases(driver, [(1, lines)])
        hits = [x for x in again['bads'] if prop in x[3] or 'ALL' in x[3]]
        fresh = [x for x in hits if (org, x[4]) not in findings]
        for x in hits:
            if (org, x[4]) in findings:
                known.append((x, findings[(org, x[4])]))
        if fresh:
            reported = (fresh, lines, org)
            break
    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': sum(r['distinct'] for _, r in mcs) + tot['states'],
            'transitions': sum(r['generated'] for _, r in mcs) + tot['transitions'],
            'traces_validated_against_impl': executed,
            'distinct_scripts': distinct,
            'events_validated': tot['lines'],
            'model_checking_runs': [{'model': m, 'distinct_states': r['distinct'], 'generated_states': r['generated']} for m, r in mcs],
            'behaviours_generated_by_TLC': gens,
            'events_by_kind': dict(sorted(tot['ops'].items())),
            'learning_hooks': kind,
            'samples': samples,
        },
        'assumptions': p.get('assumptions', plan.ASSUMPTIONS),
        'wall_s': round(wall, 1),
        'violations': 1 if reported else 0,
    }
    os.makedirs(os.path.join(vg.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(vg.VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for x, textual in sorted(set((k[0][4], k[1]) for k in known)):
        print('KNOWN-FINDING: property=%s %s' % (prop, textual))
    if reported:
        fresh, lines, org = reported
        d = os.path.join(vg.VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d.script' % (prop, os.getpid()))
        with open(path, 'w') as f:
            f.write('# replay: python3 %s/tools/vg.py %s\n' % (vg.VERIF, path))
            for x in fresh[:5]:
                f.write('# line %d (%s): %s [%s]\n' % (x[1], x[2], x[4], ' '.join(x[3])))
            f.write(vg.script_of([(1, lines)]))
        x = fresh[0]
        print('%s: %s at line %d (%s) of a case of %s' % (prop, x[4], x[1], x[2], org))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if viol and not known:
        print('note: a disagreement did not occur again when its case was run alone: %s' % (viol[0][0],))
    print('%s holds on everything explored: %d cases, %d events, %d model states (%s, %.1f s)' %
          (prop, executed, tot['lines'], ev['coverage']['states'], kind, wall))
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except vg.Broken as e:
        sys.stderr.write('check failed: %s\n' % e)
        sys.exit(2)
