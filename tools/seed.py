#!/usr/bin/env python3
"""Create and confirm a planted bug.

usage: seed.py FILE.py [filter]

FILE.py defines S = [dict(id=, prop=, edits=[(file, old, new)], demo=go test body or
source, needs=, breaks=, imports=[...], also=[(file, text)])].  The bug is kept in
/verif/seeded/<id>/ only when: it changes lines of the base commit, builds, passes
the stable tests, and its demo passes on the unchanged tree and fails with it.
"""
import json, os, re, shutil, subprocess, sys
BASE = "73018c0"
DEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 when the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
o=$(mktemp)
printf '{"Replace":{"%s/%s/zz_seed_demo_test.go":"%s/demo_test.go"}}' "$PWD" "PKG" "$d" >"$o"
go test -overlay "$o" -count=1 -vet=off -timeout 120s -run '^TestSeedDemo$' FLAGS ./PKG
rc=$?
rm -f -- "$o"
exit $rc
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    flt = sys.argv[2] if len(sys.argv) > 2 else ''
    for s in ns['S']:
        if flt not in s['id']: continue
        w = '/tmp/seedwork/' + s['id']
        sh('mkdir -p /tmp/seedwork', '/tmp')
        if os.path.exists(w): shutil.rmtree(w)
        shutil.copytree('/repo', w, symlinks=True)
        def fail(m, out=''):
            print(s['id'], '***', m, out[-1500:])
        bad = False
        for f, old, new in s['edits']:
            p = os.path.join(w, f); t = open(p).read()
            if t.count(old) != 1: fail(f'{f}: pattern occurs {t.count(old)} times: {old[:60]!r}'); bad = True; break
            open(p, 'w').write(t.replace(old, new))
        if bad: shutil.rmtree(w); continue
        sh('gofmt -w ' + ' '.join({e[0] for e in s['edits'] if e[0].endswith('.go')}) , w) if any(e[0].endswith('.go') for e in s['edits']) else None
        diff = sh('git diff', w).stdout
        # blame of removed lines
        f = None; own = 0; base = 0; ln = 0
        for l in diff.splitlines():
            if l.startswith('--- '): f = l[6:]
            elif l.startswith('+++'): pass
            elif l.startswith('@@'): ln = int(re.match(r'@@ -(\d+)', l).group(1))
            elif l.startswith('-'):
                b = sh(f'git blame -s -L {ln},{ln} HEAD -- {f}', w).stdout
                if b.startswith('^' + BASE[:7]) or b.startswith(BASE[:7]): base += 1
                else: own += 1
                ln += 1
            elif l.startswith(' '): ln += 1
        if own or not base: print(s['id'], f'note: removed lines base={base} own={own}')
        keep = base > 0
        r = sh('. /opt/vp/env.sh; go build ./... && go vet . ./ast ./evaluator ./lexer ./parser ./object ./token', w)
        if r.returncode: fail('build', r.stdout); shutil.rmtree(w); continue
        r = sh('. /opt/vp/env.sh; go test ./... 2>&1', w)
        if r.returncode: fail('existing tests fail', r.stdout); shutil.rmtree(w); continue
        d = ('/verif/seeded/' if keep else '/tmp/seedtmp/') + s['id']
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        pkg = s.get('pkg', '.')
        open(d + '/demo.sh', 'w').write(DEMO.replace('PKG', pkg).replace('FLAGS', s.get('flags', '')))
        os.chmod(d + '/demo.sh', 0o755)
        src = s['demo']
        if not src.lstrip().startswith('package'):
            imps = ''.join(f'\t"{i}"\n' for i in ['testing'] + s.get('imports', []))
            name = {'.': 'textwire'}.get(pkg, pkg.split('/')[-1])
            src = f'package {name}\n\nimport (\n{imps})\n\nfunc TestSeedDemo(t *testing.T) {{\n{src}\n}}\n'
        open(d + '/demo_test.go', 'w').write(src)
        sh('gofmt -w demo_test.go', d)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        a = sh(d + '/demo.sh', '/repo'); b = sh(d + '/demo.sh', w)
        if a.returncode != 0: fail('demo fails on the unchanged tree', a.stdout); shutil.rmtree(d)
        elif b.returncode == 0: fail('demo passes with the bug', b.stdout); shutil.rmtree(d)
        elif 'build failed' in b.stdout: fail('demo does not build', b.stdout); shutil.rmtree(d)
        else:
            res = ''
            sh(f"mkdir -p /tmp/seedwork/root_{s['id']} && cp /verif/known_findings.txt /tmp/seedwork/root_{s['id']}/", "/tmp"); c = sh(f'TW_REPO={w} TW_ROOT=/tmp/seedwork/root_{s["id"]} /verif/bin/tw check {s["prop"]}', '/verif')
            v = re.search(r'^VIOLATION.*', c.stdout, re.M)
            print(s['id'], s['prop'], 'kept;' if keep else 'NOT kept (no original line);', 'CAUGHT' if v and c.returncode == 1 else f'missed rc={c.returncode}')
        shutil.rmtree(w)
main()
