#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from gen/seedsrc/<id>.py and confirms it in a
scratch copy: builds, passes the stable tests, demo 0 clean / nonzero patched.
A seed source defines: PROP, NEEDS, BREAKS, EDITS = [(file, [(old, new)..])..],
PKG (directory of the demo) and DEMO (Go test source), KIT (optional names of
files of gen/seedsrc that go in beside it), RACE (bool), PRE (shell)."""
import sys, os, json, subprocess, shutil, tempfile
here = os.path.dirname(os.path.abspath(__file__))
ENV = dict(os.environ, GOFLAGS='-mod=readonly', GOENV='off', GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off', GOPATH='/root/go', GOCACHE='/root/.cache/go-build', HOME='/root')

SH = '''#!/bin/bash
# exit 0: the property holds in this demonstration; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOENV=off GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly
export GOPATH=/root/go GOCACHE=${GOCACHE:-/root/.cache/go-build}
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export TMPDIR=$tmp
ulimit -c 0
{
	echo '{"Replace": {'
	sep=""
	for f in "$here"/*.go.txt; do
		n=$(basename "$f" .go.txt)
		echo "$sep\\"$PWD/@PKG@/zz_${n}_test.go\\": \\"$f\\""
		sep=","
	done
	echo '}}'
} > "$tmp/overlay.json"
@PRE@
go test -vet=off -count=1 -timeout 280s @RACE@ -overlay "$tmp/overlay.json" -run '^TestZZ' ./@PKG@ > "$tmp/out" 2>&1
rc=$?
tail -c 4000 "$tmp/out"
grep -q 'no tests to run' "$tmp/out" && exit 3
exit $rc
'''

def sh(cmd, cwd, timeout=600):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def main(name, tests=True):
    g = {}
    exec(open(f'{here}/seedsrc/{name}.py').read(), g)
    wt = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    try:
        shutil.rmtree(wt); subprocess.check_call(['cp', '-a', '/repo', wt])
        sh('git checkout -q -- .', wt)
        d = f'{here}/../seeded/{name}'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        files = {'demo': g['DEMO']}
        for k in g.get('KIT', []): files[k] = open(f'{here}/seedsrc/{k}.go.txt').read()
        for k, v in files.items(): open(f'{d}/{k}.go.txt', 'w').write(v)
        open(f'{d}/demo.sh', 'w').write(SH.replace('@PKG@', g['PKG']).replace('@RACE@', '-race' if g.get('RACE') else '').replace('@PRE@', g.get('PRE', '')))
        os.chmod(f'{d}/demo.sh', 0o755)
        rc, o = sh(f'bash {d}/demo.sh', wt)
        if rc != 0: print(name, 'demo FAILS on clean:', rc, o[-3000:]); return 1
        base = subprocess.run('git rev-parse 3a708e6', shell=True, cwd=wt, stdout=subprocess.PIPE, text=True).stdout.strip()
        for f, reps in g['EDITS']:
            s = open(f'{wt}/{f}').read()
            for a, b in reps:
                assert s.count(a) == 1, (f, s.count(a), a)
                s = s.replace(a, b)
            open(f'{wt}/{f}', 'w').write(s)
        rc, o = sh('gofmt -l $(git diff --name-only)', wt)
        if o.strip(): print(name, 'gofmt', o)
        rc, diff = sh('git diff', wt)
        open(f'{d}/patch.diff', 'w').write(diff)
        json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(f'{d}/meta.json', 'w'), indent=1)
        # lines removed must be original ones
        mine = []
        import re
        cur = None
        for l in sh('git diff -U0', wt)[1].splitlines():
            if l.startswith('--- a/'): cur = l[6:]
            m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
            if m and cur and (m[2] is None or int(m[2]) > 0):
                a = int(m[1]); n = int(m[2] or 1)
                for x in sh(f'git blame -s -L {a},{a+n-1} HEAD -- {cur}', wt)[1].splitlines():
                    if not x.startswith('^'): mine.append(x)
        if mine: print(name, 'WARNING touches lines of my own commits:', *mine, sep='\n  ')
        rc, o = sh('go build ./... && go vet ./... 2>&1 | head -5', wt)
        if rc != 0: print(name, 'BUILD FAILS', o[-2000:]); return 1
        if o.strip(): print(name, 'vet:', o[:500])
        rc, o = sh(f'bash {d}/demo.sh', wt)
        if rc == 0: print(name, 'demo PASSES with the patch', o[-1500:]); return 1
        print(name, 'demo rc', rc, 'ok:', o.strip()[-300:].replace('\n', ' | '))
        if tests:
            rc, o = sh('go test -json -vet=off -count=1 ./... > go.json; python3 - <<E\nimport json\nbase=set()\nd=json.load(open("/opt/vp/BASELINE.json"))\nprint("baseline", type(d).__name__)\nE\npython3 /opt/vp/results.py o.json gojson:go.json; echo done', wt)
            a = json.load(open('/opt/vp/BASELINE.json')); b = json.load(open(f'{wt}/o.json'))
            def passed(x):
                if isinstance(x, dict):
                    for k in ('stable', 'passed', 'pass', 'stable_pass'):
                        if k in x: return set(x[k] if isinstance(x[k], list) else x[k].keys())
                    return {k for k, v in x.items() if v in ('pass', 'passed', True)}
                return set(x)
            lost = passed(a) - passed(b)
            print(name, 'tests:', len(passed(a)), 'baseline, lost', sorted(lost)[:5])
            return 1 if lost or not passed(a) else 0
        return 0
    finally:
        shutil.rmtree(wt, ignore_errors=True)

if __name__ == '__main__':
    rc = 0
    for n in sys.argv[1:]:
        try: rc |= main(n)
        except Exception as e: print(n, 'EXC', repr(e)); rc = 1
    sys.exit(rc)
