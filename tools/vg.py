"""Runs scripts on the real code and lets TLC validate the recorded traces against spec/Trace.tla."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, threading, time, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VGRAM_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = 8


class Broken(Exception):
    """The machinery itself failed."""


def sources_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, 'core/src/main/cpp'), os.path.join(VERIF, 'harness')]
    for r in roots:
        for d, dn, fs in sorted(os.walk(r)):
            dn.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, 'rb') as fd:
                    h.update(fd.read())
    return h.hexdigest()[:16]


def build_driver(fast=False):
    """Driver built from the current tree (a build of exactly these sources is reused); fast: without sanitizers."""
    key = ('f' if fast else '') + sources_hash()
    out = os.path.join(BUILD, 'drv-' + key)
    mark = os.path.join(out, 'kind')
    if not os.path.exists(mark):
        os.makedirs(BUILD, exist_ok=True)
        for old in os.listdir(BUILD):
            if old.startswith('drv-') and old != 'drv-' + key and time.time() - os.path.getmtime(os.path.join(BUILD, old)) > 7200:
                shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
        tmp = tempfile.mkdtemp(prefix='tmp-', dir=BUILD)
        env = dict(os.environ, VG_FAST='1') if fast else None
        r = subprocess.run(['bash', os.path.join(VERIF, 'harness/build.sh'), tmp], capture_output=True, text=True, env=env)
        if r.returncode != 0:
            sys.stderr.write(r.stderr)
            shutil.rmtree(tmp, ignore_errors=True)
            raise Broken('the driver does not build from ' + REPO)
        for sub in ('h', 'n'):
            shutil.rmtree(os.path.join(tmp, sub), ignore_errors=True)
        with open(os.path.join(tmp, 'kind'), 'w') as f:
            f.write(r.stdout.strip())
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return os.path.join(out, 'driver'), open(mark).read()


def java(args, env=None, timeout=None, mem='2g', xss='64m', partial=False):
    e = dict(os.environ)
    e.update(env or {})
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='java-', dir=BUILD)     # TLC leaves directories in its temporary directory
    cmd = ['java', '-Xmx' + mem, '-Xss' + xss, '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1' if os.environ.get('VG_C1') else '-XX:+TieredCompilation',
           '-Djava.io.tmpdir=' + tmp, '-cp', JARS + ':' + SPEC] + args
    try:
        return subprocess.run(cmd, capture_output=True, text=True, errors='replace', env=e, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        if partial:         # what was found until then counts
            out = x.stdout or b''
            return subprocess.CompletedProcess(cmd, None, out.decode(errors='replace') if isinstance(out, bytes) else out, '')
        raise Broken('timeout: ' + ' '.join(args))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------------ post-processing

def file_record(raw):
    try:
        j = json.loads(raw)
        al = [[int(x) for x in (w['vec'] or [])] for w in (j['alphabet'] or [])]
        fr = [int(w['freq']) for w in (j['alphabet'] or [])]
        r = {'size': int(j['size']), 'mp': int(round(j['min_prob'] * 1e9)),
             'coder': [int(x) for x in (j['coder'] or [])], 'al': al, 'fr': fr, 'tx': [], 'tk': [], 'ft': [], 'wt': []}
        ws = j['alphabet'] or []
        if ws and all('text' in w for w in ws):
            r['tx'] = [[list(w['text'].encode()) for w in ws]]
        elif any('text' in w for w in ws):
            return None
        if 'tokens' in j:
            r['tk'] = [[list(x.encode()) for x in j['tokens']]]
        if 'fitted' in j:
            r['ft'] = [[bool(j['fitted']), bool(j['freqs_computed'])]]
        if 'words_are_tokens' in j:
            r['wt'] = [bool(j['words_are_tokens'])]
        return r
    except Exception:
        return None


def postprocess(line):
    if '"raw":' not in line:
        return line
    ev = json.loads(line)
    raw = ev.pop('raw')
    rec = file_record(raw)
    if rec is not None:
        ev['j'] = rec
    return json.dumps(ev, separators=(',', ':')) + '\n'


# ------------------------------------------------------------------ running cases

def weight(case):
    return 200 + sum(len(l) for l in case)


def split(cases, n):
    """cases [(id, lines)] -> n lists of about the same weight"""
    parts = [[0, []] for _ in range(n)]
    for c in sorted(cases, key=lambda c: -weight(c[1])):
        p = min(parts, key=lambda p: p[0])
        p[0] += weight(c[1])
        p[1].append(c)
    return [sorted(p[1]) for p in parts if p[1]]


def script_of(cases):
    out = []
    for no, lines in cases:
        out.append('CASE %d' % no)
        out += lines
        out.append('END')
    return '\n'.join(out) + '\n'


def run_chunk(driver, cases, work, tag, limit):
    sc, tr, scratch = [os.path.join(work, x + tag) for x in ('script', 'trace', 'scratch')]
    with open(sc, 'w') as f:
        f.write(script_of(cases))
    os.makedirs(scratch, exist_ok=True)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=66', UBSAN_OPTIONS='halt_on_error=1:exitcode=66')
    t0 = time.time()
    r = subprocess.run([driver, sc, tr, scratch, str(limit)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env)
    t1 = time.time()
    if r.returncode != 0:
        raise Broken('driver: ' + r.stderr.decode(errors='replace')[-500:])
    nd = os.path.join(work, 'nd' + tag + '.ndjson')
    n = 0
    ops = {}
    with open(tr, 'r', errors='surrogateescape') as f, open(nd, 'w', errors='surrogateescape') as g:
        for line in f:
            if not line.endswith('\n'):
                continue                      # the line a crash cut off
            n += 1
            m = re.search(r'"o":"(\w+)"', line)
            ops[m.group(1)] = ops.get(m.group(1), 0) + 1
            g.write(postprocess(line))
    os.unlink(tr)
    return nd, n, ops, t1 - t0


BAD = re.compile(r'^"?BAD\|(\d+)\|(\d+)\|(\w+)\|([^|]*)\|([^"]*)"?$')


OP_TAGS = {'d': 'C01 C02 C03 C04 C05 C23', 's': 'C01 C02 C04 C05 C06', 'k': 'C12', 'e': 'C12', 't': 'C13', 'q': 'C27',
           'b': 'C05 C06 C07 C08 C09 C10 C11 C21 C23 C25', 'h': 'C05 C06 C07 C08 C09 C10 C11 C16 C21 C24 C25'}


def validate(nd, work, tag, timeout):
    """TLC on the trace nd.  Where the specification cannot even be evaluated on what was recorded, the case counts as a
    disagreement and the rest is validated without it."""
    extra = []
    for attempt in range(12):
        bads, st, stuck = validate_once(nd, work, tag, timeout)
        if stuck is None:
            return bads + extra, st
        with open(nd, errors='surrogateescape') as f:
            lines = f.readlines()
        ev = json.loads(lines[stuck - 1])
        extra += [b for b in bads if b[0] == ev['c']]
        extra.append((ev['c'], ev['n'], ev['o'], OP_TAGS.get(ev['o'].split('_')[0], 'ALL').split(),
                      'the specification has no step for the recorded values'))
        with open(nd, 'w', errors='surrogateescape') as f:
            f.writelines(l for l in lines if json.loads(l)['c'] != ev['c'])
    return bads + extra, (0, 0)      # so many disagreements are enough


def validate_once(nd, work, tag, timeout):
    meta = os.path.join(work, 'meta' + tag)
    r = java(['tlc2.TLC', '-workers', '1', '-metadir', meta, '-noGenerateSpecTE', '-config', os.path.join(SPEC, 'Trace.cfg'),
              os.path.join(SPEC, 'Trace.tla')], env={'VG_TRACE': nd}, timeout=timeout, partial=True)
    bads, done = [], None
    for line in r.stdout.splitlines():
        m = BAD.match(line.strip())
        if m:
            bads.append((int(m.group(1)), int(m.group(2)), m.group(3), m.group(4).split(), m.group(5)))
        elif 'DONE|' in line:
            done = line
    m = re.search(r'(\d+) states generated, (\d+) distinct', r.stdout)
    shutil.rmtree(meta, ignore_errors=True)
    if done is None and r.returncode is None:
        if bads:
            return bads, (0, 0), None
        raise Broken('TLC took more than %s s for a trace' % timeout)
    if done is None:
        keep = os.path.join(BUILD, 'tlc-failure.log')
        with open(keep, 'w') as f:
            f.write(r.stdout[-200000:] + r.stderr)
        stop = any(x in r.stdout + r.stderr for x in ('OutOfMemory', 'insufficient memory', 'Killed', 'errors: '))
        if m and not stop and 10 <= r.returncode <= 100 or m and not stop and r.returncode == 255:
            return bads, None, int(m.group(2))
        raise Broken('TLC did not finish the trace (%s): %s' % (keep, (r.stdout + r.stderr)[-800:]))
    return bads, (int(m.group(1)), int(m.group(2))) if m else (0, 0), None


def run_cases(driver, cases, jobs=CORES, limit=60, timeout=480, keep=None):
    """Runs the cases; returns dict(bads, lines, states, ops, driver_s)."""
    work = tempfile.mkdtemp(prefix='run-', dir=BUILD)
    try:
        parts = split(cases, jobs)
        # cases of very many operations have a part of their own and a driver of their own
        long_ = [c for c in cases if any(l.startswith('b_bulk') for l in c[1])]
        if long_:
            parts = split([c for c in cases if c not in long_], jobs) + split(long_, jobs)
            fast = build_driver(True)[0]
        drivers = [fast if long_ and p[0] in long_ else driver for p in parts]

        def one(i):
            tag = '.%d' % i
            nd, n, ops, ds = run_chunk(drivers[i], parts[i], work, tag, limit)
            t0 = time.time()
            bads, st = validate(nd, work, tag, timeout)
            if keep:
                shutil.copy(nd, keep + tag)
            return bads, n, ops, st, ds, time.time() - t0

        res = {'bads': [], 'lines': 0, 'states': 0, 'transitions': 0, 'ops': {}, 'driver_s': 0.0, 'tlc_s': 0.0}
        with ThreadPoolExecutor(jobs + 2) as ex:
            for bads, n, ops, st, ds, ts in ex.map(one, range(len(parts))):
                res['bads'] += bads
                res['lines'] += n
                res['transitions'] += st[0]
                res['states'] += st[1]
                res['driver_s'] = max(res['driver_s'], ds)
                res['tlc_s'] = max(res['tlc_s'], ts)
                for k, v in ops.items():
                    res['ops'][k] = res['ops'].get(k, 0) + v
        res['bads'].sort()
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    # vg.py SCRIPT : run the cases of a script file and print all disagreements
    drv, kind = build_driver()
    cases, cur = [], None
    for line in open(sys.argv[1]):
        line = line.rstrip('\n')
        if line.startswith('CASE '):
            cur = (int(line[5:]), [])
        elif line == 'END':
            cases.append(cur)
        elif line and not line.startswith('#'):
            cur[1].append(line)
    r = run_cases(drv, cases, keep=sys.argv[2] if len(sys.argv) > 2 else None)
    print(kind, {k: v for k, v in r.items() if k != 'bads'})
    for b in r['bads']:
        print('BAD', b)
