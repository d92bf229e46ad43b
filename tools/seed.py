#!/usr/bin/env python3
"""seed.py SPEC.py [id...]: builds /verif/seeded/<id>/ from a list of SEEDS and confirms each one in a scratch copy of /repo.
SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=shell text, files={name: text})]"""
import sys, os, subprocess, json, shutil, runpy, tempfile
spec = runpy.run_path(sys.argv[1])
only = sys.argv[2:]
PRE = '''#!/bin/bash
HERE="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
D="$(mktemp -d)"; trap 'rm -rf "$D"' EXIT
'''
CLI = 'go build -o "$D/ddlctl" ./cmd/ddlctl || exit 2\n'
def sh(cmd, cwd, t=300):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
for s in spec['SEEDS']:
    if only and s['id'] not in only: continue
    w = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    r = w + '/repo'
    shutil.copytree('/repo', r, symlinks=True)
    d = f"/verif/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    demo = PRE + (CLI if '$D/ddlctl' in s['demo'] or 'run_cli' in s['demo'] else '') + s['demo'].strip('\n') + '\n'
    open(d + '/demo.sh', 'w').write(demo); os.chmod(d + '/demo.sh', 0o755)
    for n, t in s.get('files', {}).items(): open(f'{d}/{n}', 'w').write(t)
    json.dump({"property": s['property'], "needs": s['needs'], "what_it_breaks": s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    c0, o0 = sh(f'bash {d}/demo.sh', r)
    ok = True; why = ''
    for f, old, new in s['edits']:
        t = open(f'{r}/{f}').read()
        if t.count(old) < 1: ok = False; why = 'old text not found in ' + f; break
        t = t.replace(old, new, 1); open(f'{r}/{f}', 'w').write(t)
    if ok:
        _, diff = sh('git diff', r)
        open(d + '/patch.diff', 'w').write(diff)
        base = subprocess.run('git log --format=%H | tail -1', shell=True, cwd=r, capture_output=True, text=True).stdout.strip()
        for f in {e[0] for e in s['edits']}:
            b = set(subprocess.run(['git', 'show', base + ':' + f], cwd=r, capture_output=True, text=True).stdout.splitlines())
            alien = [l for l in subprocess.run(['git', 'diff', '-U0', f], cwd=r, capture_output=True, text=True).stdout.splitlines() if l.startswith('-') and not l.startswith('---') and l[1:] not in b]
            if alien: print('   note: not original lines:', alien)
        c1, o1 = sh('. /opt/vp/env.sh; go build ./... && gofmt -l pkg cmd', r)
        ct, ot = sh('. /opt/vp/env.sh; go test ./... 2>&1 | grep -v "^ok\\|no test files"', r)
        c2, o2 = sh(f'bash {d}/demo.sh', r)
        if c0 != 0: ok = False; why = f'demo fails on the clean tree: {o0[-600:]}'
        elif c1: ok = False; why = 'does not build ' + o1[-400:]
        elif 'FAIL' in ot: ok = False; why = 'tests fail ' + ot[-700:]
        elif c2 == 0: ok = False; why = 'demo does not notice: ' + o2[-300:]
    shutil.rmtree(w)
    print(s['id'], 'OK' if ok else 'REJECTED ' + why)
    if not ok: shutil.rmtree(d)
