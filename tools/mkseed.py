"""mkseed.py ID PROPERTY: plants a bug from a description file and keeps it if it counts.

The description (tools-free, given on stdin) is Python defining: edits=[(file, old, new)], demo=str (python run with /opt/venv/bin/python in
/repo; exits nonzero when the property is broken), needs=str, breaks=str."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def main():
    sid, prop = sys.argv[1], sys.argv[2]
    d = {}
    exec(sys.stdin.read(), d)
    tmp = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    try:
        w = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', w, symlinks=True)
        for f, old, new in d['edits']:
            p = os.path.join(w, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = run(['git', '-C', w, 'diff']).stdout
        out = os.path.join(V, 'seeded', sid)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'wb').write(diff)
        open(os.path.join(out, 'demo.py'), 'w').write(d['demo'])
        open(os.path.join(out, 'demo.sh'), 'w').write('#!/bin/sh\n# run with cwd /repo\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        json.dump({'property': prop, 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        r1 = run(['sh', os.path.join(out, 'demo.sh')], cwd='/repo')
        r2 = run(['sh', os.path.join(out, 'demo.sh')], cwd=w)
        ok = r1.returncode == 0 and r2.returncode != 0
        print(sid, 'demo', r1.returncode, r2.returncode, r2.stdout.decode().strip().splitlines()[-1:] )
        if not ok:
            print(r1.stdout.decode()[-800:])
        t = run(['/opt/venv/bin/python', '-B', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=60', 'tests'], cwd=w,
                env=dict(os.environ, PYTHONPATH=w, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PATH='/opt/venv/bin:' + os.environ['PATH']))
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        print('   tests:', t.stdout.decode().strip().splitlines()[-1])
        for x in t.stdout.decode().splitlines():
            if x.startswith(('FAILED', 'ERROR')):
                print('     ', x)
    finally:
        shutil.rmtree(tmp)


main()
