#!/usr/bin/env python3
"""Plant one bug: seed.py SPEC.py, where SPEC defines id, prop, pkg, needs,
breaks, edits=[(file, old, new)] and demo (Go test source, test TestZZDemo) or
sh (demo.sh body). Confirms it in a scratch copy and keeps it in seeded/."""
import sys, os, subprocess, shutil, json
spec = {}
exec(open(sys.argv[1]).read(), spec)
S = spec
verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
work = '/tmp/seedwork-%s' % S['id']
def sh(c, cwd=work, timeout=900):
    p = subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr
shutil.rmtree(work, ignore_errors=True)
subprocess.check_call(['git', 'clone', '-q', '/repo', work])
try:
    d = os.path.join(verif, 'seeded', S['id'])
    os.makedirs(d, exist_ok=True)
    demo = S.get('sh')
    if not demo:
        open(d + '/demo_test.go', 'w').write(S['demo'])
        demo = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$here/demo_test.go\\"}}" > "$t/o.json"
go test -count=1 -vet=off -timeout 200s -overlay "$t/o.json" -run '^TestZZDemo$' ./%(pkg)s
''' % S
    for n, b in S.get('files', {}).items(): open(d + '/' + n, 'w').write(b)
    open(d + '/demo.sh', 'w').write(demo)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': S['prop'], 'needs': S['needs'], 'what_it_breaks': S['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    r, o = sh('bash %s/demo.sh' % d)
    print('demo on unchanged tree:', r)
    if r: print(o[-2500:]); sys.exit(1)
    for f, a, b in S['edits']:
        t = open(work + '/' + f).read()
        if t.count(a) != 1: print('edit matches', t.count(a), 'times:', f, repr(a)); sys.exit(1)
        open(work + '/' + f, 'w').write(t.replace(a, b))
    r, o = sh('gofmt -l . ; go build ./... && go vet ./... ')
    print('build:', r, o[-800:])
    if r: sys.exit(1)
    r, o = sh('git diff')
    open(d + '/patch.diff', 'w').write(o)
    r, o = sh('bash %s/demo.sh' % d)
    print('demo with the change:', r, o[-600:])
    if r == 0: sys.exit(1)
    if '--notest' not in sys.argv:
        r, o = sh('go test -vet=off -count=1 -timeout 6m ./... && go test -vet=off -count=1 -timeout 3m ./internal/results -stress && go test -vet=off -count=1 -timeout 3m -run "^TestResults$" ./acc -stress')
        print('tests:', r)
        if r:
            print('\n'.join(l for l in o.splitlines() if 'FAIL' in l or 'panic' in l)[:1500])
            sys.exit(1)
    print('kept', d)
except SystemExit as e:
    if e.code: print('NOT KEPT'); shutil.rmtree(d, ignore_errors=True)
    raise
finally:
    shutil.rmtree(work, ignore_errors=True)
