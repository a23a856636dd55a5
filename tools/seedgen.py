#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the entries of seedbugs.py and tries them out in a scratch copy of /repo.
  seedgen.py make [ID...]   writes patch.diff, demo.sh, meta.json (+ demo sources)
  seedgen.py try  [ID...]   in a private mount namespace: build, stable tests, demo with and without the patch, checks of the property
"""
import sys, os, json, subprocess, shutil, re
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE); REPO = '/repo'
sys.path.insert(0, HERE)
from seedbugs import BUGS
LIBS = 'src/muscl/libmuscl.a src/shared/libshared.a src/utils/io/libio.a src/utils/monitoring/libmonitoring.a src/shared/libshared.a src/utils/io/libio.a src/utils/config/libconfig.a'
def make(b):
    d = f'{V}/seeded/{b["id"]}'; os.makedirs(d, exist_ok=True)
    # patch
    files = {}
    for f, old, new, *n in b['edits']:
        s = files.get(f) or open(f'{REPO}/{f}').read(); n = n[0] if n else 0
        idx = [m.start() for m in re.finditer(re.escape(old), s)]
        if not idx: raise SystemExit(f'{b["id"]}: text not found in {f}: {old[:60]!r}')
        if len(idx) > 1 and n == 0: raise SystemExit(f'{b["id"]}: {len(idx)} matches in {f}, give the occurrence')
        i = idx[n - 1 if n else 0]; files[f] = s[:i] + new + s[i + len(old):]
    out = ''
    for f, s in files.items():
        p = f'/tmp/seed.{os.getpid()}'; open(p, 'w').write(s)
        r = subprocess.run(['diff', '-u', '--label', 'a/' + f, '--label', 'b/' + f, f'{REPO}/{f}', p], capture_output=True, text=True); out += f'diff --git a/{f} b/{f}\n' + r.stdout; os.remove(p)
    open(d + '/patch.diff', 'w').write(out)
    json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
    h = b['demo']           # list of (harness, [argument lists], seeds) or a path of a custom demo source
    sh = ['#!/bin/bash', '# exit 0: the property holds on the sampled inputs; non-zero: it is broken', 'D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap "rm -r $T" EXIT; export OMP_NUM_THREADS=2 OMP_PROC_BIND=false',
          'B=$R/_build/openmp; L=""; for l in ' + LIBS + '; do L="$L $B/$l"; done',
          'cc() { g++ -O1 -std=c++17 -w -fno-access-control -DNDEBUG -DUSE_HDF5 -DUSE_DOUBLE -DUSE_SDM -DKOKKOS_DEPENDENCE -fopenmp -I"$D" -I$R/src -I$R/src/utils -I$R/src/utils/config/inih -I$R/src/muscl -I/usr/include/hdf5/serial "$1" -o "$2" $L -lkokkoscontainers -lkokkoscore -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5 -lhdf5_hl -lgomp -ldl $3; }']
    keep = {'patch.diff', 'meta.json', 'demo.sh'}
    for src in b.get('files', []):
        shutil.copy(f'{V}/{src}', d); keep.add(os.path.basename(src))
    if isinstance(h, str):
        shutil.copy(f'{HERE}/demo/{h}', d + '/demo.cpp'); keep.add('demo.cpp'); 
        for x in b.get('extra_headers', ['sym.h']): shutil.copy(f'{HERE}/demo/{x}', d); keep.add(x)
        sh += ['cc "$D/demo.cpp" $T/demo "" || exit 3', 'cd $T && $T/demo ' + b.get('demo_args', '')]
    else:
        shutil.copy(f'{HERE}/demo/sym.h', d); keep.add('sym.h'); s = open(f'{V}/checks/hsetup.h').read().replace('"../engine/sym.h"', '"sym.h"'); open(d + '/hsetup.h', 'w').write(s); keep.add('hsetup.h')
        for k, (src, args, seeds, *df) in enumerate(h):
            shutil.copy(f'{V}/checks/{src}', d); keep.add(src); sh.append(f'cc "$D/{src}" $T/d{k} "{df[0] if df else ""}" || exit 3'); sh.append('cd $T')
            for a in args:
                for s in seeds: sh.append(f'DEMO_SEED={s} $T/d{k} ' + ' '.join(a) + ' || exit 1')
        sh.append('exit 0')
    open(d + '/demo.sh', 'w').write('\n'.join(sh) + '\n'); os.chmod(d + '/demo.sh', 0o755)
    for f in os.listdir(d):
        if f not in keep: os.remove(d + '/' + f)
def scratch():
    if not os.path.isdir('/tmp/sw'): subprocess.run('cp -a /repo /tmp/sw', shell=True, check=True)
    subprocess.run('git -C /tmp/sw fetch -q /repo HEAD && git -C /tmp/sw checkout -q -f FETCH_HEAD && rm -rf /tmp/vf && mkdir /tmp/vf && cd /verif && git ls-files -z | grep -zv ^seeded/ | xargs -0 cp --parents -t /tmp/vf && cp -a /verif/build /tmp/vf/ && mkdir -p /tmp/vf/evidence && cp /tmp/vf/../sd/x /tmp/vf 2>/dev/null; true', shell=True)
def ns(cmd, tmo=3000):
    p = subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind /tmp/sw /repo && mount --bind /tmp/vf /verif && cd /repo && ' + cmd], capture_output=True, text=True, timeout=tmo); return p.returncode, p.stdout + p.stderr
def trybug(b, notest):
    i = b['id']; d = f'{V}/seeded/{i}'; subprocess.run(f'rm -rf /tmp/sd && cp -r {d} /tmp/sd', shell=True)
    res = {}
    if not notest:
        rc, o = ns('bash /opt/vp/build.sh >/tmp/sw_b.log 2>&1; bash /tmp/sd/demo.sh'); res['demo_clean'] = rc
        if rc: print(i, 'demo on clean tree:', rc, o[-600:])
    rc, o = ns('git apply /tmp/sd/patch.diff'); 
    if rc: print(i, 'patch:', o[-300:]); return
    try:
        if not notest:
            rc, o = ns('bash /opt/vp/test.sh /tmp/sw_t.json 2>&1 | tail -1'); res['tests'] = o.strip()[-60:]
            rc, o = ns('bash /tmp/sd/demo.sh'); res['demo_bug'] = rc; res['demo_out'] = o[-160:].replace('\n', ' | ')
        for c in [b['prop']] + b.get('also', []):
            rc, o = ns(f'cd /verif && timeout 900 python3 run.py {c} --tier quick > /tmp/sw_{i}_{c}.log 2>&1; r=$?; grep -c ^VIOLATION /tmp/sw_{i}_{c}.log; exit $r'); res['check_' + c] = rc
    finally: ns('git checkout -q -- .')
    print(i, json.dumps(res), flush=True)
if __name__ == '__main__':
    cmd = sys.argv[1]; ids = [a for a in sys.argv[2:] if not a.startswith('-')]; notest = '--checks' in sys.argv
    sel = [b for b in BUGS if not ids or b['id'] in ids or b['prop'] in ids]
    if cmd == 'make':
        for b in sel: make(b)
        print(len(sel), 'written')
    else:
        scratch()
        for b in sel: trybug(b, notest)
