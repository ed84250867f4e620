"""Are the models' invariants vacuous?  Each entry weakens one rule of the specification (in a scratch copy) and names
the model that has to notice.  Usage: specmut.py [name ...]; prints what TLC reported for each."""
import os, re, shutil, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
import plan, vg

HB = 'VgMonitor.tla'
MUTS = [
    # name, file, old, new, model
    ('search-shortest', 'VgDict.tla', 'Len(d[best + 1]) < Len(d[i])', 'Len(d[best + 1]) > Len(d[i])', 'dict'),
    ('parent-shortest', 'VgDict.tla', 'Len(d[k]) <= Len(d[j])) - 1', 'Len(d[k]) >= Len(d[j])) - 1', 'dict'),
    ('grow-twice', 'VgDict.tla', 'IF \\E i \\in 1..Len(d) : IsAt(d[i], s, p) THEN d ELSE', 'IF \\E i \\in 1..Len(d) : d[i] = <<s[p]>> THEN d ELSE', 'dict'),
    ('tie-slack', 'VgDict.tla', 'Slack(s) == 6 * Len(s) + 6', 'Slack(s) == 600000', 'stat'),
    ('count-weights', 'VgStat.tla', '!.P = @ + Len(out),', '!.P = @ + Len(out) + SumSeq(g.w),', 'stat'),
    ('count-once', 'VgStat.tla', '[c EXCEPT ![id + 1] = @ + 1] ELSE c', '[c EXCEPT ![id + 1] = 1] ELSE c', 'stat'),
    ('reduce-room', HB, 'Len(new) <= slots, "C09"', 'TRUE, "C09"', 'builder'),
    ('reduce-symbols', HB, 'Singles(new) = Singles(d), "C07', 'TRUE, "C07', None),    # reductions offered never drop symbols
    ('expand-anything', HB, 'comps[k] # {}, "C08"', 'TRUE, "C08"', None),              # the closed model offers only neighbours
    ('expand-drops', HB, '~room \\/ Len(oldIx) = n, "C07', 'TRUE, "C07', None),
    ('min-prob-up', HB, '!.cur = gen, !.res = IF exp', '!.cur = [gen EXCEPT !.mp = @ + 7], !.res = IF exp', 'builder'),
    ('publish-expanded', HB, '!.res = IF exp THEN cur ELSE gen', '!.res = gen', 'builder'),
    ('no-alternation', HB, '!.pop = ~exp', '!.pop = TRUE', 'builder'),
    ('known-later', 'VgLearn.tla', 'THEN r - 1 ELSE asz', 'THEN asz ELSE asz', None),  # KnownAfter; more room is consistent by itself
    ('no-growth', HB, 'R(PutB(SetD(st, B.cur.did, d2), ev.h, B2)', 'R(PutB(st, ev.h, B2)', 'builder'),
    ('code-again', 'VgCoder.tla', 'IF Find(x, a) = 0 THEN Append(a, x) ELSE a', 'Append(a, x)', 'code'),
    ('code-again-stream', 'VgCoder.tla', 'IF Find(x, a) = 0 THEN Append(a, x) ELSE a', 'Append(a, x)', 'stream'),
    ('parse-teaches', HB, 'Put(SetD(st1, v.did, d2), h, Memoized(v, d2, es, out))', 'Put(SetD(st1, v.did, d2), h, Memoized([v EXCEPT !.c = Learn(@, seq)], d2, es, out))', 'stream'),
    ('reports-short', HB, 'Reports(st, v) == PadTo(v.fr, Len(SnapD(st, v)), 0)', 'Reports(st, v) == v.fr', 'stream'),
    ('load-order', HB, 'fr == FreqsFor(f, d)', 'fr == f.fr', 'stream'),
    ('load-size', HB, 'v |-> NewV(f.size, B, c,', 'v |-> NewV(f.size - 1, B, c,', 'stream'),
    ('shared-dict', HB, 'st1 == AddD(AddD(st, d), d) ', 'st1 == AddD(AddD(st, d), d) ', None),
    ('update-late', HB, '!.fr = Counts(p, Len(st.D[p.did])), !.mp', '!.fr = @, !.mp', 'stream'),
    ('fit-cut-fitted', HB, '!.fit = <<[f EXCEPT !.fitted = @ \\/ recount, !.fc = @ \\/ (recount /\\ ~cutCount)]>>,\n                       !.fr', '!.fit = <<[f EXCEPT !.fitted = TRUE, !.fc = TRUE]>>,\n                       !.fr', 'fit'),
    ('fit-no-freqs', HB, '!.fr = IF recount THEN fr ELSE @', '!.fr = @', 'fit'),
    ('code-taken', 'VgTok.tla', 'MaxOf(m, c + 1), 0, t.code)', 'm, Len(t.code), t.code)', 'text'),
    ('hidden-tokens', 'VgFile.tla', 'shown \\o [j \\in 1..Len(K) |-> f.coder[K[j]]])', 'shown \\o [j \\in 1..Len(K) |-> 0])', 'text'),
    ('words-joined', 'VgTok.tla', 'IF a.cur = <<>> THEN a ELSE', 'IF a.cur # <<>> THEN a ELSE', 'code'),
    ('share-loose', 'VgRandom.tla', None, None, None),
]


def run(m):
    name, f, old, new, model = m
    if model is None or old == new:
        return name, 'skipped', ''
    work = tempfile.mkdtemp(prefix='specmut-', dir=vg.BUILD)
    spec = os.path.join(work, 'spec')
    shutil.copytree(vg.SPEC, spec)
    p = os.path.join(spec, f)
    s = open(p).read()
    if s.count(old) != 1:
        return name, 'ANCHOR %d' % s.count(old), ''
    open(p, 'w').write(s.replace(old, new))
    module, quick, _ = plan.MODELS[model]
    try:
        cfg = plan.config(work, module, quick, False)
        meta = os.path.join(work, 'meta')
        import subprocess
        r = subprocess.run(['java', '-Xmx3g', '-Xss64m', '-XX:+UseSerialGC', '-cp', vg.JARS + ':' + spec, 'tlc2.TLC', '-workers', '2', '-metadir', meta,
                            '-noGenerateSpecTE', '-config', cfg, os.path.join(spec, module + '.tla')], capture_output=True, text=True, timeout=600)
        o = r.stdout
        if 'No error has been found' in o:
            return name, 'NOT NOTICED', model
        w = re.findall(r'(Invariant \w+ is violated|Action property \w+ is violated|Temporal properties were violated|Error: [^\n]{0,90})', o)
        return name, 'noticed', '%s: %s' % (model, w[0] if w else o[-200:])
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    os.makedirs(vg.BUILD, exist_ok=True)
    sel = [m for m in MUTS if m[4] and (len(sys.argv) < 2 or m[0] in sys.argv[1:])]
    with ThreadPoolExecutor(3) as ex:
        for x in ex.map(run, sel):
            print(*x, flush=True)
