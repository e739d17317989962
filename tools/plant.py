"""Plant one bug: build seeded/<id>/ from an edit, confirm it in a scratch copy of /repo, and run the property's check on it.
Usage: plant.py SPEC.py   (SPEC defines id, prop, needs, breaks, edits=[(file, old, new)], demo)"""
import json, os, re, shutil, subprocess, sys, tempfile
PY = '/opt/venv/bin/python'
REPO = '/repo'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def plant(bid, prop, needs, breaks, edits, demo, tests=True):
    out = os.path.join(VERIF, 'seeded', bid)
    scratch = tempfile.mkdtemp(prefix='plant_')
    copy = os.path.join(scratch, 'repo')
    ok = False
    try:
        subprocess.run(['cp', '-a', REPO, copy], check=True)
        for f, old, new, *which in edits:
            p = os.path.join(copy, 'pydtmc', f)
            parts = open(p).read().split(old)
            if len(parts) < 2 or (len(parts) > 2 and not which):
                print(bid, 'EDIT BAD', f, len(parts) - 1, repr(old)); return False
            k = which[0] if which else 0
            open(p, 'w').write(old.join(parts[:k + 1]) + new + old.join(parts[k + 1:]))
        d = sh('git diff', copy).stdout
        mine = []
        for f in sorted({e[0] for e in edits}):
            bl = sh('git blame -s pydtmc/%s' % f, REPO).stdout.splitlines()
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', sh('git diff -U0 pydtmc/%s' % f, copy).stdout, re.M):
                a, k = int(m.group(1)), int(m.group(2) or 1)
                mine += [l for l in bl[a - 1:a - 1 + k] if not l.startswith('^')]
        if mine:
            print(bid, 'NOT ORIGINAL', mine); return False
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'w').write(d)
        open(os.path.join(out, 'demo.py'), 'w').write('import os\nimport sys\nsys.path.insert(0, os.getcwd())\n' + demo.lstrip())
        open(os.path.join(out, 'demo.sh'), 'w').write('#!/bin/bash\nexec /opt/venv/bin/python -W ignore -B "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        a = sh('bash %s/demo.sh' % out, REPO, 300)
        b = sh('bash %s/demo.sh' % out, copy, 300)
        print(bid, 'demo clean rc', a.returncode, a.stdout[-300:] if a.returncode else '', '| patched rc', b.returncode, b.stdout.strip().splitlines()[-1:] )
        if a.returncode != 0 or b.returncode == 0:
            print('  DEMO BAD'); print(b.stdout[-500:]); return False
        if tests:
            t = sh('/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider -n 8 --benchmark-skip --timeout=300 tests/', copy)
            if t.returncode != 0:
                print('\n'.join(l for l in t.stdout.splitlines() if l.startswith('FAILED'))[:600]); print('  TESTS BAD'); return False
        ok = True
    finally:
        shutil.rmtree(scratch)
        if not ok:
            shutil.rmtree(out, ignore_errors=True)
    return True


def detect(bid, tier='quick'):
    out = os.path.join(VERIF, 'seeded', bid)
    prop = json.load(open(os.path.join(out, 'meta.json')))['property']
    scratch = tempfile.mkdtemp(prefix='plant_')
    try:
        copy = os.path.join(scratch, 'repo')
        subprocess.run(['cp', '-a', REPO, copy], check=True)
        r = sh('git apply %s/patch.diff' % out, copy)
        if r.returncode:
            print(bid, 'APPLY FAILED', r.stdout[-300:]); return None
        c = sh('PYDTMC_REPO=%s ./check.py %s%s' % (copy, prop, ' --tier thorough' if tier != 'quick' else ''), VERIF)
    finally:
        shutil.rmtree(scratch)
    v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
    caught = c.returncode == 1 and any('property=%s' % prop in l for l in v)
    print(bid, prop, 'CAUGHT' if caught else 'MISSED rc=%d' % c.returncode, v[:1], '' if caught else c.stdout[-400:])
    return caught


if __name__ == '__main__':
    if sys.argv[1] == 'detect':
        ids = sys.argv[2:] or sorted(os.listdir(os.path.join(VERIF, 'seeded')))
        for i in ids:
            detect(i)
    else:
        for spec in sys.argv[1:]:
            ns = {}
            exec(open(spec).read(), ns)
            for b in ns['bugs']:
                if plant(*b):
                    detect(b[0])
