"""Mutation testing of the machinery (not part of any check).

mutate.py OUT [FILTER]   mutates every source line of /repo's core one by one in scratch copies under /tmp, and reports the
mutants that no rule of the specification objects to: those whose recorded traces equal the traces of the unchanged code
("same": equivalent, or never exercised) and those whose traces differ and are accepted ("accepted").
"""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor, as_completed
import gen, plan, vg

SRC = 'core/src/main/cpp'
FILES = ['algorithm/int_dict_p.cc', 'algorithm/stat_dict_p.cc', 'algorithm/int_vgram_builder_p.cc', 'algorithm/fast_random.cc', 'algorithm/vector_hash.h',
         'algorithm/list_dict.h', 'algorithm/stat_dict_p.h', 'algorithm/int_vgram_builder_p.h', 'algorithm/int_dict_p.h', 'algorithm/int_dict.cc',
         'algorithm/int_dict.h', 'algorithm/stat_dict.h', 'interfaces/seq_coder.cc', 'interfaces/tokenizers/base_tokenizer.cc', 'interfaces/tokenizers/char_tokenizer.cc',
         'interfaces/tokenizers/word_tokenizer.cc', 'interfaces/vgram_builders/int_stream_vgram.cc', 'interfaces/vgram_builders/int_vgram.cc',
         'interfaces/vgram_builders/string_stream_vgram.cc', 'interfaces/vgram_builders/string_vgram.cc', 'interfaces/saver.h', 'interfaces/loader.h']
FLAGS = ('-w -O1 -std=gnu++14 -DVGRAM_TRACE -fsanitize=address,undefined -fno-sanitize-recover=all -include cstdint -include iostream '
         '-include limits -include algorithm').split()


def mutants(text):
    """[(line number, description, new line)]"""
    out = []
    trace = False
    for i, l in enumerate(text.split('\n')):
        if '#ifdef VGRAM_TRACE' in l:
            trace = True
        if trace:
            trace = '#endif' not in l
            continue
        s = l.strip()
        if not s or s.startswith('//') or s.startswith('#') or s.startswith('*') or 'std::cout' in s:
            continue
        code = l.split('//')[0]

        def sub(pat, rep, what, cnt=None):
            for m in re.finditer(pat, code):
                new = code[:m.start()] + m.expand(rep) + code[m.end():]
                if new != code:
                    out.append((i, what, new))
        sub(r'(?<![<>\-=!&])<(?=[^<>=]*[;)]| [^<>]*$)(?!\w+>)', '<=', '< -> <=')
        sub(r' < ', ' > ', '< -> >')
        sub(r' > ', ' >= ', '> -> >=')
        sub(r' > ', ' < ', '> -> <')
        sub(r' >= ', ' > ', '>= -> >')
        sub(r' <= ', ' < ', '<= -> <')
        sub(r' == ', ' != ', '== -> !=')
        sub(r' != ', ' == ', '!= -> ==')
        sub(r' \+ ', ' - ', '+ -> -')
        sub(r' - ', ' + ', '- -> +')
        sub(r' \* (?=\w)', ' + ', '* -> +')
        sub(r' / ', ' * ', '/ -> *')
        sub(r' \+= ', ' -= ', '+= -> -=')
        sub(r' \+= ', ' = ', '+= -> =')
        sub(r' -= ', ' += ', '-= -> +=')
        sub(r' && ', ' || ', '&& -> ||')
        sub(r' \|\| ', ' && ', '|| -> &&')
        sub(r'\btrue\b', 'false', 'true -> false')
        sub(r'\bfalse\b', 'true', 'false -> true')
        sub(r'std::min\b', 'std::max', 'min -> max')
        sub(r'std::max\b', 'std::min', 'max -> min')
        sub(r'\bcontinue;', 'break;', 'continue -> break')
        sub(r'\bbreak;', 'continue;', 'break -> continue')
        sub(r'(?<![\w."])0(?![\w."x])', '1', '0 -> 1')
        sub(r'(?<![\w."])1(?![\w."])', '2', '1 -> 2')
        sub(r'(?<![\w."])1(?![\w."])', '0', '1 -> 0')
        sub(r'(?<![\w."])([2-9]|\d\d+)(?![\w."])', r'(\1 + 1)', 'n -> n + 1')
        sub(r'(?<![\w."])(\d+\.\d+)(?![\w."])', r'(\1 * 1.5)', 'x -> 1.5 x')
        sub(r'\b(if|while) \((.*)\)(?= |$)', r'\1 (!(\2))', 'negated')
        sub(r'\bif \((.*)\)(?= |$)', r'if (true || (\1))', 'if true')
        sub(r'\bif \((.*)\)(?= |$)', r'if (false && (\1))', 'if false')
        sub(r'\.begin\(\)(?=[,)])', '.begin() + 1', 'begin + 1')
        sub(r'\+\+(\w+)', r'--\1', '++ -> --')
        sub(r'!(?=[a-z])', '', '! dropped')
        if s.endswith(';') and not re.match(r'(return|break|continue|delete|\}|using|typedef|virtual|explicit|friend|case|default|public|private)', s) \
                and not re.match(r'(const |static |mutable )?[\w:<>, ]+[&*]? +[&*]?\w+( = .*|\(.*\))?;$', s):
            out.append((i, 'dropped', re.match(r'\s*', l).group(0) + ';'))
        m = re.match(r'(\s*)return (.+);$', code.rstrip())
        if m and m.group(2) not in ('true', 'false', 'this', 'nullptr') and re.search(r'[a-z]', m.group(2)):
            out.append((i, 'return + 1', '%sreturn (%s) + 1;' % m.groups()))
    seen = set()
    res = []
    for m in out:
        if (m[0], m[2]) not in seen:
            seen.add((m[0], m[2]))
            res.append(m)
    return res


def compile_cmds(tree, objdir):
    M = os.path.join(tree, SRC)
    inc = ['-I' + M, '-I' + M + '/algorithm', '-I' + M + '/interfaces']
    ccs = []
    for d, _, fs in os.walk(M):
        ccs += [os.path.join(d, f) for f in fs if f.endswith('.cc') and f not in ('vgram_builder.cc', 'list_dict.cc')]
    ccs += [os.path.join(vg.VERIF, 'harness', x) for x in ('driver.cc', 'driver_io.cc')]
    return [(c, os.path.join(objdir, c.replace('/', '_').replace(tree.replace('/', '_'), '') + '.o'), inc) for c in sorted(ccs)]


def build(tree, objdir, only=None, base=None):
    """compiles; only: set of file names that changed (None: all); returns driver path or None"""
    objs = []
    for c, o, inc in compile_cmds(tree, objdir):
        if only is not None and c not in only:
            objs.append(os.path.join(base, os.path.basename(o)))
            continue
        fl = list(FLAGS)
        if c.endswith('driver.cc'):
            fl += ['-O0', '-fno-sanitize=all']
        r = subprocess.run(['g++'] + fl + inc + ['-c', c, '-o', o], capture_output=True)
        if r.returncode:
            return None
        objs.append(o)
    out = os.path.join(objdir, 'driver')
    r = subprocess.run(['g++', '-fsanitize=address,undefined'] + objs + ['-o', out], capture_output=True)
    return None if r.returncode else out


def run(driver, script, work, tag, limit=4, timeout=60):
    tr, scratch = os.path.join(work, 'tr' + tag), os.path.join(work, 'scr' + tag)
    os.makedirs(scratch, exist_ok=True)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=66', UBSAN_OPTIONS='halt_on_error=1:exitcode=66')
    try:
        subprocess.run([driver, script, tr, scratch, str(limit)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, timeout=timeout)
    except subprocess.TimeoutExpired:
        pass
    per = {}
    if os.path.exists(tr):
        with open(tr, errors='surrogateescape') as f:
            for l in f:
                m = re.match(r'\{"c":(\d+)', l)
                if m:
                    per.setdefault(int(m.group(1)), []).append(l)
        os.unlink(tr)
    shutil.rmtree(scratch, ignore_errors=True)
    return {k: hashlib.md5(''.join(v).encode(errors='surrogateescape')).digest() for k, v in per.items()}


def main():
    outp, filt = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else ''
    top = tempfile.mkdtemp(prefix='mutate-', dir='/tmp')
    base = os.path.join(top, 'base')
    shutil.copytree(os.path.join(vg.REPO, SRC), os.path.join(base, SRC))
    objs = os.path.join(top, 'obj')
    os.makedirs(objs)
    drv = build(base, objs)
    assert drv
    mix = {}
    for f in gen.FAMILIES:
        mix[f] = 12
    mix.update(b_fresh=3, b_patient=1, i_learn=2, y_learn=1, tw_fresh=1, d_long=3, b_assoc=16)
    cases = gen.cases(mix, 'mut', 1, 0.05)
    names = [f for f, n in mix.items() for _ in range(n)]
    for g in plan.GENS:
        for s in plan.generate(g, 7, False):
            cases.append((len(cases) + 1, s))
            names.append('TLC ' + g)
    script = os.path.join(top, 'script')
    with open(script, 'w') as f:
        f.write(vg.script_of(cases))
    t = time.time()
    ref = run(drv, script, top, 'ref')
    ref2 = run(drv, script, top, 'ref2')
    stable = {k for k in ref if ref2.get(k) == ref[k]}
    print('%d cases, %d reproducible, %.1f s' % (len(cases), len(stable), (time.time() - t) / 2), flush=True)
    byno = dict(cases)
    todo = []
    for fn in FILES:
        if filt and not re.search(filt, fn):
            continue
        text = open(os.path.join(base, SRC, fn)).read()
        for no, what, new in mutants(text):
            todo.append((fn, no, what, new, text))
    if len(sys.argv) > 3:
        random.Random(1).shuffle(todo)
        todo = todo[:int(sys.argv[3])]
    print(len(todo), 'mutants', flush=True)
    log = open(outp, 'w')
    cnt = {}

    def one(k):
        fn, no, what, new, text = todo[k]
        tree = os.path.join(top, 'm%d' % k)
        shutil.copytree(os.path.join(base, SRC), os.path.join(tree, SRC))
        lines = text.split('\n')
        lines[no] = new
        with open(os.path.join(tree, SRC, fn), 'w') as f:
            f.write('\n'.join(lines))
        ob = os.path.join(tree, 'o')
        os.makedirs(ob)
        try:
            only = {os.path.join(tree, SRC, fn)} if fn.endswith('.cc') else None
            # objects of the base have the names of the base tree removed, as have those of the copy
            d = build(tree, ob, only, objs)
            if d is None:
                return 'invalid', ''
            got = run(d, script, top, '.%d' % k)
            diff = [c for c in stable if got.get(c) != ref[c]]
            if not diff:
                return 'same', ''
            r = random.Random(k)
            fams = {}
            for c in diff:
                fams.setdefault(names[c - 1], []).append(c)
            pick = []
            for f in fams:
                pick += fams[f][:4]
            r.shuffle(pick)
            for part in (pick[:24], pick[24:]):
                if not part:
                    continue
                res = vg.run_cases(d, [(c, byno[c]) for c in part], jobs=2, limit=10)
                if res['bads']:
                    tags = {}
                    for b in res['bads']:
                        for x in b[3]:
                            tags[x] = tags.get(x, 0) + 1
                    return 'killed', '%d differ; %s; %s' % (len(diff), ' '.join('%s:%d' % x for x in sorted(tags.items(), key=lambda x: -x[1])[:8]), res['bads'][0][4])
            return 'accepted', '%d differ in %s' % (len(diff), ' '.join('%s:%d' % (f, len(c)) for f, c in fams.items()))
        except Exception as e:
            return 'error', str(e)[-200:]
        finally:
            shutil.rmtree(tree, ignore_errors=True)

    with ThreadPoolExecutor(int(os.environ.get('MUT_JOBS', '4'))) as ex:
        for verdict, info, k in (f.result() for f in as_completed([ex.submit(lambda k: one(k) + (k,), k) for k in range(len(todo))])):
            fn, no, what, new, text = todo[k]
            cnt[verdict] = cnt.get(verdict, 0) + 1
            log.write('%-8s %s:%d [%s] %s   -- %s\n' % (verdict, fn, no + 1, what, new.strip()[:140], info))
            log.flush()
    print(cnt, flush=True)
    shutil.rmtree(top, ignore_errors=True)


if __name__ == '__main__':
    main()
