#!/usr/bin/env python3
"""seed.py ID : confirms seeded/ID in a scratch copy of /repo: applies, builds, tests, demo 0 without and !=0 with.
   seed.py --make ID FILE <<< 'OLD\n====\nNEW' : makes patch.diff from a replacement."""
import sys, subprocess, os, tempfile, shutil, json
V='/verif/seeded/'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if sys.argv[1]=='--make':
    i, f = sys.argv[2:4]
    blocks=[b.split('\n====\n') for b in sys.stdin.read().split('\n@@@@\n')]
    t=tempfile.mkdtemp()
    sh(f'git -C /repo archive HEAD | tar -x -C {t}; cd {t}; git init -q; git add -A; git -c user.name=x -c user.email=x commit -qm x')
    for b in blocks:
        ff=f
        if b[0].startswith('FILE '): l,b[0]=b[0].split('\n',1); ff=l[5:].strip()
        s=open(f'{t}/{ff}').read(); old=b[0].strip('\n'); new=b[1].strip('\n')
        assert s.count(old)==1, (s.count(old), old)
        open(f'{t}/{ff}','w').write(s.replace(old,new))
    os.makedirs(V+i, exist_ok=True)
    open(V+i+'/patch.diff','w').write(sh(f'git -C {t} diff').stdout)
    shutil.rmtree(t); sys.exit()
rc=0
for i in sys.argv[1:]:
    t=tempfile.mkdtemp(prefix='seed')
    try:
        sh(f'rsync -a --exclude target /repo/ {t}/r/ || cp -a /repo {t}/r')
        d=f'{t}/d'; shutil.copytree(V+i, d)
        env=dict(os.environ)
        a=sh(f'bash {d}/demo.sh', cwd=f'{t}/r')
        p=sh(f'git apply {d}/patch.diff', cwd=f'{t}/r')
        te=sh('. /opt/vp/env.sh; CARGO_TARGET_DIR=/tmp/seedtarget cargo test --locked --offline $PKGS --no-fail-fast 2>&1 | grep -E "^test |^error|test result"', cwd=f'{t}/r')
        b=sh(f'bash {d}/demo.sh', cwd=f'{t}/r')
        fails=[l for l in te.stdout.split('\n') if 'FAILED' in l or l.startswith('error')]
        n=te.stdout.count('... ok')
        ok = a.returncode==0 and p.returncode==0 and b.returncode!=0 and not fails and n>=29
        print(i, 'OK' if ok else 'BAD', 'clean', a.returncode, 'apply', p.returncode, 'tests', n, fails[:3], 'patched', b.returncode)
        if not ok or '-v' in sys.argv: print(a.stdout[-1500:], p.stdout[-500:], '\n---patched:', b.stdout[-1500:])
    finally: shutil.rmtree(t)
