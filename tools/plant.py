"""Plant a bug: make a scratch copy of /repo, apply the edits, check that it
builds, passes the stable tests and that the demonstration tells it apart; keep
it under /verif/seeded/<id>/.

usage: plant.py SPEC.py [ID...]   (SPEC defines BUGS: list of dicts)
"""
import json, os, re, shutil, subprocess, sys, tempfile

ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', GO111MODULE='on',
           GOCACHE='/root/.cache/go-build', GOMODCACHE='/root/go/pkg/mod', PATH='/opt/veriftools/go1.23.12/bin:' + os.environ['PATH'])
DEMO = '''#!/bin/bash
# Runs main.go, which lies beside this file, against the repository in the current directory.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=/root/go/pkg/mod
export PATH=/opt/veriftools/go1.23.12/bin:$PATH
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
echo "{\\"Replace\\": {\\"$R/zz_demo/main.go\\": \\"$D/main.go\\"}}" > "$T/overlay.json"
go build -overlay "$T/overlay.json" -o "$T/demo" ./zz_demo || exit 3
cd "$T" && DEBUG_LVL=0 timeout 200 ./demo
'''

def sh(cmd, cwd, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')

def stable(repo):
    env_pkgs = "go list -e ./... | grep -v '/simul$'"
    sh('rm -rf simul/build; rm -f simul/test_data/*.csv data/unlynx_test_data.txt; find . -name pre_compute_multiplications.gob -not -path "./.git/*" -delete', repo)
    rc, out = sh(f'timeout -k 10 780 go test -json -vet=off -count=1 -p=1 -cpu 1 -timeout 4m $({env_pkgs}) > {repo}.log', repo)
    subprocess.run(['python3', '/opt/vp/results.py', repo + '.json', 'gojson:' + repo + '.log'], stdout=subprocess.DEVNULL)
    b = json.load(open('/opt/vp/BASELINE.json')); t = json.load(open(repo + '.json'))
    os.unlink(repo + '.json'); os.unlink(repo + '.log')
    return [x for x in b['stable'] if x not in t['passed']]

def plant(b, quick):
    d = '/verif/seeded/' + b['id']
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.sh', 'w').write(b.get('demo', DEMO)); os.chmod(d + '/demo.sh', 0o755)
    if 'main' in b:
        open(d + '/main.go', 'w').write(b['main'].lstrip('\n'))
    for n, c in b.get('files', {}).items():
        open(d + '/' + n, 'w').write(c)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    scratch = tempfile.mkdtemp(prefix='plant', dir='/tmp')
    repo = scratch + '/repo'
    ok = False
    try:
        sh(f'cp -a /repo {repo}', '/')
        sh('git checkout -q -- .', repo)
        rc, out = sh(f'bash {d}/demo.sh', repo)
        if rc != 0:
            print(b['id'], 'REJECTED: demo fails on the unchanged tree', rc, out[-1500:]); return
        for f, old, new in b['edits']:
            s = open(repo + '/' + f).read()
            if s.count(old) != 1:
                print(b['id'], 'REJECTED: text found', s.count(old), 'times in', f, repr(old)); return
            open(repo + '/' + f, 'w').write(s.replace(old, new))
        rc, diff = sh('git diff', repo)
        base = [l for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        rc, out = sh('gofmt -l ' + ' '.join(e[0] for e in b['edits']) + '; go build ./... && go vet $(for f in ' + ' '.join(e[0] for e in b['edits']) + '; do echo ./$(dirname $f); done | sort -u) 2>&1 | grep -v "^#" | head -5; go build ./...', repo)
        if rc != 0:
            print(b['id'], 'REJECTED: does not build', out[-1500:]); return
        rc, out = sh(f'bash {d}/demo.sh', repo)
        if rc == 0:
            print(b['id'], 'REJECTED: demo passes with the change'); return
        demo_out = out.strip().splitlines()[-1:] 
        if not quick:
            miss = stable(repo)
            if miss:
                print(b['id'], 'REJECTED: tests fail', miss[:6]); return
        open(d + '/patch.diff', 'w').write(diff)
        ok = True
        print(b['id'], 'OK', demo_out)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        if not ok:
            shutil.rmtree(d, ignore_errors=True)

if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    args = sys.argv[2:]
    quick = '-q' in args
    args = [a for a in args if a != '-q']
    for b in ns['BUGS']:
        if not args or b['id'] in args:
            plant(b, quick)
