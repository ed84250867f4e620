"""Falsified traces (not part of any check): is every recorded observation constrained by the specification?

corrupt.py SEED [PER]   records cases of every family, changes one field of one recorded event at a time and validates the changed
traces.  Lists the fields whose change the specification does not notice (inputs are among them: a changed input is only noticed
where the observed reaction does not fit it).
"""
import copy, glob, json, os, random, re, shutil, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
import gen, plan, vg

SKIP = {'c', 'n', 'o', 'h', 'op', 'what'}


def changes(v, r):
    """[(kind, new value)]"""
    if isinstance(v, bool):
        return [('flip', not v)]
    if isinstance(v, int):
        return [('+1', v + 1)]
    if isinstance(v, list):
        out = []
        if v:
            out.append(('drop', v[:-1]))
            i = r.randrange(len(v))
            for k, w in changes(v[i], r)[:3]:
                out.append(('elem ' + k, v[:i] + [w] + v[i + 1:]))
            js = [j for j in range(len(v)) if v[j] != v[i]]
            if js:
                j = r.choice(js)
                w = v[:]
                w[i], w[j] = w[j], w[i]
                out.append(('swap', w))
            out.append(('add', v + [copy.deepcopy(r.choice(v))]))
        return out
    if isinstance(v, dict):
        return [(k + ' ' + kk, dict(v, **{k: ww})) for k in v for kk, ww in changes(v[k], r)]
    return []


def main():
    seed, per = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 4
    mix = {f: 8 for f in gen.FAMILIES if f not in ('b_patient', 'b_bulk', 'd_huge', 'i_learn', 'y_learn', 'd_wide', 'b_wide', 'k_wide', 'v_wide')}
    cases = gen.cases(mix, seed, 1, 0)
    drv, kind = vg.build_driver()
    work = tempfile.mkdtemp(prefix='cor-', dir=vg.BUILD)
    try:
        res = vg.run_cases(drv, cases, keep=os.path.join(work, 'keep'))
        bad = {b[0] for b in res['bads']}
        per_case = {}
        for p in glob.glob(os.path.join(work, 'keep*')):
            for l in open(p, errors='surrogateescape'):
                ev = json.loads(l)
                per_case.setdefault(ev['c'], []).append(ev)
        r = random.Random(seed)
        where = {}
        for c, evs in per_case.items():
            if c in bad or len(evs) > 60:
                continue
            for i, ev in enumerate(evs):
                for f in ev:
                    if f not in SKIP:
                        where.setdefault((ev['o'], f), []).append((c, i))
        todo = []
        for (o, f), pl in sorted(where.items()):
            r.shuffle(pl)
            got = {}
            for c, i in pl[:200]:
                for k, w in changes(per_case[c][i][f], r):
                    key = (o, f, k)
                    if got.get(k, 0) < per:
                        got[k] = got.get(k, 0) + 1
                        todo.append((key, c, i, f, w))
        print(len(todo), 'falsified traces', flush=True)
        r.shuffle(todo)
        seen, info = {}, {}
        n = 8
        parts = [list(range(i, len(todo), n * 6)) for i in range(n * 6)]

        def one(pi):
            nd = os.path.join(work, 'nd%d' % pi)
            with open(nd, 'w', errors='surrogateescape') as g:
                for t in parts[pi]:
                    key, c, i, f, w = todo[t]
                    for j, ev in enumerate(per_case[c]):
                        e2 = dict(ev, c=t + 1)
                        if j == i:
                            e2[f] = w
                        g.write(json.dumps(e2, separators=(',', ':')) + '\n')
            out = set()
            while True:
                bads, st, stuck = vg.validate_once(nd, work, '.%d' % pi, 900)
                out |= {b[0] for b in bads}
                if stuck is None:
                    return out
                lines = open(nd, errors='surrogateescape').readlines()
                c = json.loads(lines[stuck - 1])['c']
                out.add(c)
                with open(nd, 'w', errors='surrogateescape') as g:
                    g.writelines(l for l in lines if json.loads(l)['c'] != c)
                if not os.path.getsize(nd):
                    return out

        hit = set()
        with ThreadPoolExecutor(int(os.environ.get('COR_JOBS', '4'))) as ex:
            for s in ex.map(one, range(len(parts))):
                hit |= s
        for t, (key, c, i, f, w) in enumerate(todo):
            a = seen.setdefault(key, [0, 0])
            a[1] += 1
            if t + 1 in hit:
                a[0] += 1
            else:
                info.setdefault(key, (c, i, json.dumps(per_case[c][i])[:300], json.dumps(w)[:120]))
        for key, (a, b) in sorted(seen.items()):
            if a < b:
                print('%d/%d %s' % (a, b, ' '.join(key)), '' if a else '   e.g. case %s event %s: %s -> %s' % info[key])
        print('noticed: %d of %d; fields with changes never noticed: %d of %d' %
              (len(hit), len(todo), sum(1 for a, b in seen.values() if not a), len(seen)))
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    main()
