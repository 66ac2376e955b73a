"""Plants the bugs of tools/seeds.py: makes seeded/<id>/ after confirming, in a scratch copy, that the change passes the stable
tests and that its demonstration passes without it and fails with it.  usage: mkseed.py [ids]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = []


def seed(id, prop, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


exec(open(os.path.join(HERE, 'tools', 'seeds.py')).read())

DEMO_SH = '''#!/bin/bash
# run in the repository, after its build
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''
want = sys.argv[1:]
base = tempfile.mkdtemp(prefix='seedwork')
stable = json.load(open('/opt/vp/BASELINE.json'))


def tests(d):
    out = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'metatab/test/test_parser.py',
                          '-k', 'test_line_doc or test_line_doc_parts or test_new_parser or test_term_subclasses or test_url', '-q'],
                         cwd=d, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1'))
    return out.returncode == 0, out.stdout[-600:]


def demo(d, here):
    return subprocess.run(['bash', os.path.join(here, 'demo.sh')], cwd=d, capture_output=True, text=True, timeout=300,
                          env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))


try:
    for s in SEEDS:
        if want and s['id'] not in want:
            continue
        d = os.path.join(base, 'r')
        shutil.rmtree(d, ignore_errors=True)
        subprocess.check_call(['cp', '-a', '/repo', d])
        subprocess.check_call(['git', '-C', d, 'checkout', '-q', '--', '.'])
        here = os.path.join(base, 'd')
        shutil.rmtree(here, ignore_errors=True)
        os.makedirs(here)
        open(os.path.join(here, 'demo.sh'), 'w').write(DEMO_SH)
        open(os.path.join(here, 'demo.py'), 'w').write(s['demo'].lstrip())
        r0 = demo(d, here)
        bad = None
        for f, old, new in s['edits']:
            p = os.path.join(d, 'metatab', f)
            t = open(p).read()
            if t.count(old) != 1:
                bad = 'edit matches {} times: {}'.format(t.count(old), old)
                break
            open(p, 'w').write(t.replace(old, new))
        if bad:
            print(s['id'], 'FAILED', bad)
            continue
        diff = subprocess.check_output(['git', '-C', d, 'diff'], text=True)
        ok, txt = tests(d)
        r1 = demo(d, here)
        if r0.returncode or not ok or r1.returncode == 0:
            print(s['id'], 'FAILED', 'clean', r0.returncode, r0.stderr[-500:], 'tests', ok, '' if ok else txt, 'with', r1.returncode)
            continue
        o = os.path.join(HERE, 'seeded', s['id'])
        os.makedirs(o, exist_ok=True)
        for n in ('demo.sh', 'demo.py'):
            shutil.copy(os.path.join(here, n), o)
        os.chmod(os.path.join(o, 'demo.sh'), 0o755)
        open(os.path.join(o, 'patch.diff'), 'w').write(diff)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(o, 'meta.json'), 'w'), indent=1)
        print(s['id'], 'ok:', r1.stderr.strip().splitlines()[-1][:150] if r1.stderr.strip() else r1.returncode)
finally:
    shutil.rmtree(base)
