"""What each check runs: model checking configurations, TLC generators, families of generated cases."""
import json, os, re, shutil, tempfile
import vg

ASSUMPTIONS = [
    'TLC and its Json module, the C++ compiler and sanitizers are trusted',
    'scripts keep to the documented use: distinct non-empty entries, no search of an empty sequence, '
    'frequencies below 2^30, sizes and probabilities as a caller would give them',
    'probabilities are compared in fixed point; parses closer than the slack of VgDict!Slack are not told apart',
]

D = dict
PLAN = {
    'C01': D(mc='dict'.split(), gen='dict'.split(), mix=D(b_one=1, b_grams=2, d_app=3, d_big=1, v_long=4, x_long=3, d_huge=1, d_wide=3, d_long=10, d_mix=60, d_grow=40, d_weigh_close=40, s_mix=40, v_mix=12, b_fast=10, x_mix=12, y_mix=10, i_mix=10, f_hand=10)),
    'C02': D(mc='dict stat'.split(), gen='dict stat'.split(), mix=D(b_one=2, b_grams=2, d_app=4, d_deep=3, d_big=4, v_long=4, i_long=3, d_wide=3, b_wide=2, d_long=8, d_tie=60, d_weigh_close=90, d_mix=50, s_mix=50, b_fast=12, b_reload=8, v_mix=10, i_counts=20, f_hand=15, b_fresh=1)),
    'C03': D(mc='dict'.split(), gen='dict'.split(), mix=D(d_deep=12, d_app=4, d_big=1, d_long=5, d_huge=1, d_wide=5, d_search_all=120, d_mix=80, d_grow=60, d_canon=30, b_two=8)),
    'C04': D(mc='dict'.split(), gen='dict'.split(), mix=D(d_deep=5, d_big=1, d_wide=3, d_canon=120, d_mix=60, s_mix=40, b_reload=8, f_hand=15, b_fast=6)),
    'C05': D(mc='dict'.split(), gen='dict'.split(), mix=D(b_one=1, d_app=16, d_wide=4, d_grow=150, d_mix=60, s_mix=40, b_fast=8, b_two=8, v_early=20, v_mix=8)),
    'C06': D(mc='stat'.split(), gen='stat'.split(), mix=D(b_one=3, v_many=2, b_rate=2, b_bulk=1, b_grams=2, b_low=3, d_big=1, d_long=4, d_wide=2, b_wide=3, s_mix=220, b_fast=12, b_reload=8, b_fresh=2)),
    'C07': D(mc='builder'.split(), gen='builder'.split(), mix=D(b_one=2, v_many=2, b_new_symbols=6, b_grams=2, b_gaps=12, b_wide=4, b_tight=15, b_phase=12, b_fast=25, b_many=20, b_reload=10, b_two=6, b_small=6, b_fresh=3, v_mix=10)),
    'C08': D(mc='builder'.split(), gen='builder'.split(), mix=D(b_one=2, b_low=2, b_new_symbols=2, b_grams=2, v_long=3, b_gaps=5, b_wide=6, b_fast=25, b_many=12, b_reload=10, b_two=6, b_fresh=3, v_mix=10, x_mix=10, i_learn=2)),
    'C09': D(mc='builder'.split(), gen='builder'.split(), mix=D(b_new_symbols=10, b_crowd=1, b_gaps=8, v_fresh=4, b_wide=3, b_tight=8, b_fast=25, b_many=20, b_reload=10, b_small=10, b_fresh=2, b_phase=25, v_mix=12, f_hand=10, i_learn=2)),
    'C10': D(mc='builder'.split(), gen='builder'.split(), mix=D(b_one=3, b_low=8, b_grams=3, b_new_symbols=3, b_crowd=2, b_rate=12, b_phase=8, b_fast=25, b_many=10, b_reload=16, b_small=6, b_fresh=4, b_patient=3, b_bulk=2, v_mix=10)),
    'C11': D(mc='builder'.split(), gen='builder'.split(), mix=D(b_one=3, b_low=4, b_new_symbols=3, b_grams=2, b_crowd=2, b_gaps=6, b_wide=6, b_overlap=25, b_fast=25, b_many=10, b_reload=10, b_two=6, b_fresh=3, v_mix=10, f_hand=8)),
    'C12': D(mc='code stream'.split(), gen='code stream'.split(), mix=D(v_many=3, k_long=8, v_long=2, k_wide=4, v_wide=2, k_mix=150, v_mix=12, v_early=15, i_mix=10, x_mix=10, f_hand=10)),
    'C13': D(mc='code text'.split(), gen='code text'.split(), mix=D(x_book=3, t_long=14, k_long=2, k_wide=6, t_mix=200, t_round=60, x_mix=12, y_mix=10)),
    'C14': D(mc='stream text'.split(), gen='stream text'.split(), mix=D(v_many=3, x_book=4, v_long=8, x_long=4, v_wide=4, v_mix=35, v_early=60, f_hand=15, x_mix=20, i_mix=10, y_mix=8)),
    'C15': D(mc='stream text'.split(), gen='stream text'.split(), mix=D(v_many=8, x_book=2, v_long=4, i_long=2, v_fresh=2, v_wide=4, y_part=8, v_mix=40, v_early=30, i_mix=15, x_mix=15, b_fast=8, f_hand=15)),
    'C16': D(mc='fit'.split(), gen='fit'.split(), mix=D(i_long=10, y_long=5, i_mix=60, i_counts=40, i_learn=5, y_mix=20, tw_i=8)),
    'C17': D(mc='fit'.split(), gen='fit text'.split(), mix=D(i_long=8, y_long=5, y_part=10, i_mix=50, i_counts=30, y_mix=30, v_mix=15, i_learn=2)),
    'C18': D(mc='text'.split(), gen='text'.split(), mix=D(x_book=6, x_long=8, y_long=8, y_part=30, x_mix=60, y_mix=50, y_learn=2, t_mix=20)),
    'C19': D(mc='stream text'.split(), gen='stream text'.split(), mix=D(v_many=3, x_book=5, v_long=3, x_long=3, i_long=3, v_wide=4, f_hand=60, v_mix=15, v_early=15, i_mix=20, x_mix=25, y_mix=25, i_learn=2, y_learn=1)),
    'C20': D(mc='stream text'.split(), gen='stream text fit'.split(), mix=D(v_many=3, x_book=10, v_long=2, x_long=3, i_long=3, v_wide=3, f_hand=70, v_early=20, v_mix=12, i_mix=20, i_counts=15, x_mix=20, y_mix=20)),
    'C21': D(mc='builder'.split(), gen='builder'.split(), mix=D(v_many=2, b_low=2, b_new_symbols=2, b_grams=2, v_long=3, b_gaps=10, v_wide=2, b_reload=25, b_fast=20, f_hand=20, v_mix=20, x_mix=15)),
    'C22': D(mc='fit'.split(), gen='fit'.split(), mix=D(i_long=8, i_mix=130, i_counts=15, i_learn=4)),
    'C23': D(mc='stream'.split(), gen='stream text'.split(), mix=D(v_many=3, v_long=2, v_two=25, b_two=25, d_grow=50, d_mix=40, b_fast=15, tw_b=6, v_mix=15, k_mix=10, s_mix=20)),
    'C24': D(mc='builder'.split(), gen='builder'.split(), mix=D(tw_b=25, tw_v=25, tw_i=20, tw_fresh=2, v_mix=8, y_mix=8)),
    'C26': D(mc='builder'.split(), gen='builder'.split(), mix=D(b_one=8, b_low=2, b_grams=12, b_crowd=8, b_wide=4, b_assoc=90, b_fast=12, b_many=8, b_tight=6, b_fresh=3)),
    'C27': D(mc='draw'.split(), gen='draw'.split(), mix=D(q_dir=300)),
    'C25': D(mc='builder'.split(), gen='builder'.split(), mix=D(b_one=3, b_low=3, b_new_symbols=3, b_grams=6, b_gaps=20, v_fresh=2, b_wide=3, b_tight=12, b_fast=30, b_many=10, b_reload=14, b_two=6, b_fresh=3)),
}


# ------------------------------------------------------------------ models
# model: (module, quick constants, thorough constants)
MODELS = {
    'dict': ('MC_Dict', D(MaxEntries=2, ProbeLen=2), D(MaxEntries=2, ProbeLen=4, MaxLen=3)),
    'stat': ('MC_Stat', D(MaxOps=4), D(MaxOps=5)),
    'builder': ('MC_Builder', D(MaxAcc=4, MaxSteps=2, MaxNew=1), D(MaxAcc=6, MaxSteps=3, MaxNew=2)),
    'stream': ('MC_Stream', D(MaxOps=5), D(MaxOps=7)),
    'fit': ('MC_Fit', D(MaxOps=2), D(MaxOps=3)),
    'code': ('MC_Code', D(MaxOps=4, MaxText=1), D(MaxOps=5, MaxText=2)),
    'text': ('MC_Text', D(MaxOps=4), D(MaxOps=6)),
    'draw': ('MC_Draw', D(), D(Params='{1, 2, 7, 30, 1000, 100000}', MaxParams=4)),
}
# generator: (module, constants, mode, behaviours quick, behaviours thorough)
# mode 'all': every initial state of the module gives scripts; 'sim': random behaviours of the depth given
GENS = {
    'dict': ('MC_Dict', D(MaxEntries=2, ProbeLen=2), 'all', 40, 106),
    'stat': ('MC_Stat', D(MaxOps=12), 14, 14, 120),
    'builder': ('MC_Builder', D(MaxAcc=20, MaxSteps=6, MaxNew=2), 30, 8, 150),
    'stream': ('MC_Stream', D(MaxOps=18, MaxAcc=14, MaxNew=2), 30, 10, 150),
    'fit': ('MC_Fit', D(MaxOps=6, MaxNew=2), 40, 12, 150),
    'code': ('MC_Code', D(MaxOps=14, MaxText=3), 20, 40, 400),
    'text': ('MC_Text', D(MaxOps=16, MaxAcc=9, MaxNew=2), 40, 16, 150),
    'draw': ('MC_Draw', D(MaxParams=3), 'all', 70, 70),
}


def config(work, module, consts, emit, body=None):
    lines = open(os.path.join(vg.SPEC, module + '.cfg')).read().splitlines()
    out = []
    for l in lines:
        m = re.match(r'(\s+)(\w+) = ', l)
        if m and m.group(2) in consts:
            l = '%s%s = %s' % (m.group(1), m.group(2), consts[m.group(2)])
        elif m and m.group(2) == 'Emit':
            l = m.group(1) + 'Emit = ' + ('TRUE' if emit else 'FALSE')
        elif emit and l.startswith('PROPERTIES'):
            continue
        elif emit and l.startswith('INVARIANTS'):
            l = 'INVARIANTS Emitted'
        elif body and l.startswith('SPECIFICATION'):
            l = body
        out.append(l)
    p = os.path.join(work, module + '.cfg')
    with open(p, 'w') as f:
        f.write('\n'.join(out) + '\n')
    return p


def tlc(work, module, cfg, extra, timeout, mem='3g'):
    return vg.java(['tlc2.TLC', '-metadir', os.path.join(work, 'meta'), '-noGenerateSpecTE', '-config', cfg] + extra +
                   [os.path.join(vg.SPEC, module + '.tla')], timeout=timeout, mem=mem)


def model_check(name, thorough):
    module, quick, deep = MODELS[name]
    work = tempfile.mkdtemp(prefix='mc-', dir=vg.BUILD)
    try:
        cfg = config(work, module, deep if thorough else quick, False)
        r = tlc(work, module, cfg, ['-workers', '4' if thorough else '2'], 860, '6g' if thorough else '3g')
        m = re.search(r'(\d+) states generated, (\d+) distinct states found, 0 states left', r.stdout)
        if r.returncode != 0 or not m or 'No error has been found' not in r.stdout:
            with open(os.path.join(vg.BUILD, 'mc-failure.log'), 'w') as f:
                f.write(r.stdout[-200000:] + r.stderr)
            raise vg.Broken('model %s does not hold: %s' % (name, (r.stdout + r.stderr)[-600:]))
        return {'distinct': int(m.group(2)), 'generated': int(m.group(1))}
    finally:
        shutil.rmtree(work, ignore_errors=True)


def file_line(op):
    """["FILE", name, size, min_prob, coder, alphabet, freqs, texts, words, fit] -> f_write line"""
    it = iter(op[1:])
    nxt = lambda: next(it)
    seq = lambda: [nxt() for _ in range(nxt())]
    name, size, mp = nxt(), nxt(), float(nxt())
    coder = seq()
    al = [seq() for _ in range(nxt())]
    fr = seq()
    fit = [nxt() for _ in range(3)]
    rest = list(it)
    j = D(size=size, min_prob=mp, coder=coder, alphabet=[D(freq=f, vec=a) for a, f in zip(al, fr)])
    if fit[0]:
        j['fitted'], j['freqs_computed'] = bool(fit[1]), bool(fit[2])
    if rest:
        it2 = iter(rest)
        words = next(it2)
        for w in j['alphabet']:
            w['text'] = bytes(next(it2)).decode('ascii')
        if words >= 0:
            j['words_are_tokens'] = bool(words)
    return 'f_write %s %s' % (name, json.dumps(j).encode().hex())


def word_of(x):
    # lists are texts
    return ''.join('%02x' % b for b in x) or '-' if isinstance(x, list) else str(x)


def line_of(op):
    return file_line(op) if op[0] == 'FILE' else ' '.join(word_of(x) for x in op)


def generate(name, seed, thorough):
    module, consts, mode, nq, nt = GENS[name]
    n = nt if thorough else nq
    work = tempfile.mkdtemp(prefix='gen-', dir=vg.BUILD)
    try:
        if mode == 'all':
            cfg = config(work, module, consts, True, 'INIT Init\nNEXT ' + ("Stay" if module == "MC_Dict" else "Next"))
            r = tlc(work, module, cfg, ['-workers', '1'], 600)
        else:
            cfg = config(work, module, consts, True)
            r = tlc(work, module, cfg, ['-workers', '1', '-simulate', 'num=%d' % n, '-depth', str(mode), '-seed', str(seed)], 860)
        out, seen = [], {}
        for l in r.stdout.splitlines():
            i = l.find('"SCRIPT|')
            if i < 0:
                continue
            ops = json.loads(json.loads(l[i:])[7:])
            script = [line_of(o) for o in ops]
            key = tuple(script[:max(1, len(script) - 3)]) if mode != 'all' else tuple(script)
            if seen.setdefault(key, 0) >= 2 or script in out:
                continue
            seen[key] += 1
            out.append(script)
        if not out:
            raise vg.Broken('generator %s gives nothing: %s' % (name, (r.stdout + r.stderr)[-600:]))
        if mode == 'all' and len(out) > n:
            k = int(seed) % len(out)
            out = [out[(k + i * len(out) // n) % len(out)] for i in range(n)]
        return out
    finally:
        shutil.rmtree(work, ignore_errors=True)
