#!/usr/bin/env python3
"""mkseed.py SPEC.py...: builds /verif/seeded/<id>/ from a spec that defines
ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (rust), and confirms it in /repo:
applies, only touches original lines, builds, stable tests pass, demo passes without and fails with it."""
import sys, os, subprocess, json, shutil, runpy
R, V = '/repo', '/verif'
BASE = '14f5182'
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean(): sh('git -C /repo checkout -- .')
def demo(d):
    r = sh(f'bash {d}/demo.sh', cwd=R); return r.returncode, r.stdout
lib = os.path.join(V, 'tools/demo_lib')
for spec in sys.argv[1:]:
    s = runpy.run_path(spec)
    for b in (s['BUGS'] if 'BUGS' in s else [s]):
        ID = b['ID']; d = f'{V}/seeded/{ID}'
        if os.path.exists(d + '/meta.json') and '--force' not in os.environ.get('MKSEED', ''):
            continue
        assert not sh('git -C /repo status --porcelain').stdout.strip()
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + '/demo/src')
        for f in ['circuit', 'fields', 'fs', 'run', 'toypc', 'systems']:
            shutil.copy(f'{V}/mc/src/{f}.rs', f'{d}/demo/src/')
        for f in ['Cargo.toml', 'Cargo.lock']: shutil.copy(f'{lib}/{f}', f'{d}/demo/')
        shutil.copy(f'{lib}/demo.sh', d)
        open(f'{d}/demo/src/main.rs', 'w').write(open(f'{lib}/prelude.rs').read() + b['DEMO'])
        json.dump({'property': b['PROP'], 'needs': b['NEEDS'], 'what_it_breaks': b['BREAKS']}, open(f'{d}/meta.json', 'w'), indent=1)
        bad = None
        try:
            for f, old, new in b['EDITS']:
                p = f'{R}/{f}'; t = open(p).read()
                if t.count(old) != 1: bad = f'{f}: {t.count(old)} matches of {old[:60]!r}'; break
                base = sh(f'git -C /repo show {BASE}:{f}').stdout
                ol = [l for l in old.splitlines() if l not in new.splitlines() and l.strip()]
                for l in ol:
                    if l not in base.splitlines() and l.strip() not in base: bad = f'not an original line: {l}'
                open(p, 'w').write(t.replace(old, new))
            if not bad:
                diff = sh('git -C /repo diff').stdout
                open(f'{d}/patch.diff', 'w').write(diff)
                r = sh('bash /opt/vp/build.sh')
                if r.returncode: bad = 'build: ' + r.stdout[-1500:]
            if not bad:
                sh('bash /opt/vp/test.sh /tmp/seed_t.json')
                t = json.load(open('/tmp/seed_t.json'))
                base = json.load(open('/opt/vp/BASELINE.json'))
                lost = [x for x in json.dumps(base) and (base.get('passed') or base.get('stable') or []) if x not in t['passed']]
                if lost or len(t['passed']) < 18: bad = f'tests fail: {lost} {len(t["passed"])}'
            if not bad:
                c, o = demo(d)
                if c == 0: bad = 'demo passes with the patch: ' + o[-600:]
                else: print(ID, 'with patch:', o.strip().splitlines()[-1:] )
        finally:
            clean()
        if not bad:
            c, o = demo(d)
            if c: bad = 'demo fails on the clean tree: ' + o[-1500:]
        if bad:
            print('REFUSED', ID, bad); shutil.rmtree(d, ignore_errors=True)
        else: print('KEPT', ID)
