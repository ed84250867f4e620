"""Which of the planted bugs are caught?  For each of seeded/<id>: a scratch copy of /repo with the patch, the quick check of
the property it breaks (VGRAM_REPO points at the copy).  Usage: seedrun.py [-j N] [-all] [id ...]
prints: id property exit 'caught'|'MISSED'; with -all every check is run and those that raise a violation are listed."""
import json, os, queue, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def main(a):
    jobs = int(a[a.index('-j') + 1]) if '-j' in a else 2
    every = '-all' in a
    names = [x for i, x in enumerate(a) if not x.startswith('-') and a[max(0, i - 1)] != '-j' and x] or sorted(os.listdir(ROOT + '/seeded'))
    tmp = tempfile.mkdtemp(prefix='seedrun-', dir='/tmp')
    slots = queue.Queue()
    for i in range(jobs):
        d = '%s/%d' % (tmp, i)
        subprocess.run('mkdir -p %s/repo %s/verif/evidence && cd /repo && git archive HEAD | tar x -C %s/repo && cd %s && '
                       'cp -a spec tools harness known_findings.txt MANIFEST.json properties.jsonl %s/verif/' % (d, d, d, ROOT, d), shell=True, check=True)
        slots.put(d)

    def one(n):
        d = slots.get()
        try:
            p = json.load(open('%s/seeded/%s/meta.json' % (ROOT, n)))['property']
            patch = '%s/seeded/%s/patch.diff' % (ROOT, n)
            subprocess.run(['patch', '-s', '-p1', '-d', d + '/repo', '-i', patch], check=True)
            try:
                ids = [json.loads(l)['id'] for l in open(ROOT + '/properties.jsonl')] if every else [p]
                out = []
                for q in ids:
                    r = subprocess.run(['timeout', '900', 'python3', d + '/verif/tools/check.py', q, 'quick'], capture_output=True, text=True, cwd=d + '/verif',
                                       env=dict(os.environ, VGRAM_REPO=d + '/repo', VERIF_SEED='1', VERIF_TIER='quick'))
                    if r.returncode == 1:
                        out.append(q)
                    elif r.returncode != 0:
                        out.append('%s:exit%d' % (q, r.returncode))
                print(n, p, 'caught' if p in out else 'MISSED', ' '.join(out), flush=True)
            finally:
                subprocess.run(['patch', '-s', '-R', '-p1', '-d', d + '/repo', '-i', patch], check=True)
        finally:
            slots.put(d)
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, names))
    subprocess.run(['rm', '-rf', tmp])


if __name__ == '__main__':
    main(sys.argv[1:])
