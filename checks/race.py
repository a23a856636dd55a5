"""C18: two-work-item reduction of every kernel, decided by CBMC on C generated from clang's IR of the real solver code
compiled against a stand-in Kokkos (checks/race/inc); floating-point values are unknown, integers and sizes symbolic."""
import concurrent.futures as cf, os, re, time
CL = '-O1 -std=c++17 -w -fno-exceptions -fno-access-control -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -fno-threadsafe-statics'
# harness, name, defines, kernels that count (regex on the functor type)
H = [(s, f'{s}{d}d_v{v}', f'-DDIM={d} -DIMPL={v}', v) for s, n in (('hydro', 2), ('mhd', 3)) for d in (2, 3) for v in range(n)] + [('sdm', f'sdm{d}d_N{n}_rk{k}', f'-DDIM={d} -DIMPL=0 -DORD={n} -DRK={k}', k) for d, n in ((2, 2), (2, 3), (3, 2)) for k in range(4)]
def run(R, pid, spec, tier, wd, deadline, only):
    D = R.HERE + '/checks/race'; E = R.HERE + '/engine/ir2c.cpp'; so = R.BUILD + '/ir2c.so'; os.makedirs(R.BUILD, exist_ok=True)
    fl = "$(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//')"; inc = f'-I{D}/inc -I{D} -I{R.SRC} -I{R.HERE}/checks'
    R.once(so, R.hashfiles([E]), f'g++ -O1 -fPIC -shared -std=c++17 -w {fl} -fno-rtti {E} -o @OUT@')
    def gen(src, d, k, out, kern=0): return R.sh(f'clang++-18 {CL} -fpass-plugin={so} {d} -DONLY=\'"{k}"\' {inc} -c {D}/{src}.cpp -o /dev/null', 300, dict(os.environ, IR2C_NOFP='1', IR2C_OUT=out, **({'IR2C_KERNELS': '1'} if kern else {})))
    def kernels(h):
        src, nm, d, v = h; c = f'{wd}/{nm}.c'; rc, out = gen(src, d, 'none', c, 1)
        if rc or not os.path.exists(c): return [dict(h=h, name=nm, k=None, err='not encodable: ' + out[-400:])]
        rc, out = R.sh(f'ulimit -v 6000000; exec cbmc {c} --unwind {40 if src == 'sdm' else 14} --no-standard-checks --slice-formula --object-bits 12 --sat-solver cadical --verbosity 4', 120)
        ks = sorted(set(re.findall(r'KERNEL .*\[F = (.*?), A = .*FAILURE', out)))
        if not ks: return [dict(h=h, name=nm, k=None, err='no kernels found: ' + out[-200:])]
        return [dict(h=h, name=f"{nm} {k.replace('ppkMHD::', '')} part {p}", k=k, part=p) for k in ks if not (src == 'sdm' and 'MakeB' in k) if v == 0 or (re.search('Update|Erase', k) if src == 'sdm' else not re.search(r'::(Init|MakeB|Rising|Raylei)', k)) for p in (1, 2)]
    def cbmc(c, tmo, extra='', sl='--slice-formula'):
        return R.sh(f'ulimit -v 6000000; exec cbmc {c} --unwind {40 if '/sdm' in c else 14} --unwinding-assertions --no-standard-checks {sl} --object-bits 12 --verbosity 8 --stop-on-fail --sat-solver cadical {extra}', tmo)
    def one(j):
        src, nm, d, _ = j['h']; t0 = time.time(); r = dict(name=j['name'], status='undecided', how='', vcc=0, left=0, solver=0.0, steps=0)
        if not j['k']: r['how'] = j['err']; return r
        left = deadline - time.time()
        if left < 20: r['how'] = 'no time left'; return r
        d += f" -DPART={j['part']}" + (' \'-DFIXED={5,4,3}\'' if src == 'sdm' or j['part'] == 2 and 'Boundaries' in j['k'] and '3D' in j['k'] else ''); F = f"::{j['k'].split('::', 1)[1]}, A = "; c = f"{wd}/{re.sub(r'[^A-Za-z0-9]+', '_', j['name'])}.c"; rc, out = gen(src, d, F, c)
        if rc or not os.path.exists(c): r['how'] = 'not encodable: ' + out[-300:]; return r
        rc, out = cbmc(c, max(10, min(200 if tier == 'quick' else 1500, left - 10)))
        m = re.search(r'Generated (\d+) VCC\(s\), (\d+) remaining', out); r['vcc'] = int(m[1]) if m else 0; r['left'] = int(m[2]) if m else 0
        m = re.search(r'size of program expression: (\d+)', out); r['steps'] = int(m[1]) if m else 0
        r['solver'] = sum(float(x) for x in re.findall(r'Runtime (?:Solver|decision procedure): ([\d.e+-]+)s', out)); r['wall'] = round(time.time() - t0, 1)
        if 'VERIFICATION SUCCESSFUL' in out and r['vcc'] > 0:
            r['status'] = 'proven'
            return r
        if 'VERIFICATION FAILED' not in out: r['how'] = 'solver gave no answer ' + out[-150:].replace('\n', ' '); return r
        rc, out = cbmc(c, max(10, min(300, deadline - time.time() - 10)), '--trace', '')
        f = re.findall(r'Violated property:\n(.*\n.*\n.*)', out); r['label'] = ' '.join(f[-1].split())[-160:] if f else '?'; v = {}
        for a, b in re.findall(r'v_iv\[(\d+)[ul]*\]=(-?\d+)', out): v[int(a)] = int(b)
        V = [v.get(i, 0) for i in range(max(v) + 1 if v else 1)]; r['ints'] = V
        exe = c[:-2] + '.exe'; rc, out = R.sh(f'clang++-18 -O1 -w -no-pie -std=c++17 -fpass-plugin={so} -DNATIVE {d} -DONLY=\'"{F}"\' {inc} {D}/{src}.cpp -Wl,--unresolved-symbols=ignore-all -o {exe}', 300)
        fails = []
        for prob in [''] + sorted(problems):
            rc, out = R.sh(f"PROBLEM='{prob}' timeout 60 {exe} 40 " + ' '.join(map(str, V)), 70); fails = re.findall(r'NATIVE-FAIL (.*)', out)
            if fails: r['problem'] = prob; break
        if fails: r['status'] = 'violated'; r['fails'] = sorted(set(fails))[:4]
        else: r['how'] = 'counterexample not reproduced natively: ' + r['label'] + ' ' + out[-100:]
        return r
    problems = set()
    for dp, _, fs in os.walk(R.SRC + '/muscl'):
        for f in fs: problems |= set(re.findall(r'm_problem_name(?:\.compare\(| *== *)"(\w+)"', open(f'{dp}/{f}').read()))
    with cf.ThreadPoolExecutor(8) as ex: todo = [j for l in ex.map(kernels, [h for h in H if tier == 'thorough' or h[0] != 'sdm' or 'sdm2d_N2' in h[1]]) for j in l if not only or re.search(only, j['name'])]
    res = []; viol = []
    heavy = lambda j: -sum(w in j['name'] for w in ('Trace', 'Emf', 'Boundar', '3d', 'mhd', 'SDM'))
    with cf.ThreadPoolExecutor(spec.get('par', int(os.environ.get('RACE_PAR', 8)))) as ex:
        for r in ex.map(one, sorted(todo, key=heavy)): res.append(r); R.log(r['name'], r['status'], r.get('wall'), 's', r['steps'], r['vcc'], r['how'][:200])
    rp = f'{R.HERE}/replays/{pid}'
    for r in res:
        if r['status'] == 'violated' and len(viol) < 5:
            os.makedirs(rp, exist_ok=True); f = f'{rp}/{len(viol)}.txt'
            open(f, 'w').write(f"property {pid}\nkernel {r['name']}\nproblem {r.get('problem', '')}\nsizes, boundary types, work items, location: {' '.join(map(str, r['ints']))}\nfails: {'; '.join(r['fails'])}\n"); viol.append((r, f))
    ok = [r for r in res if r['status'] == 'proven']; und = [r for r in res if r['status'] == 'undecided']
    cov = dict(explanation=spec['explain'], functions_encoded=sorted({r['name'].split(' ', 1)[1] for r in res if ' ' in r['name']}), bounds=spec['bounds'], configurations=[f"{r['name']}: {r['status']}({r.get('wall', 0)} s, {r['steps']} steps, {r['vcc']} conditions)" for r in res],
               claims=sum(r['vcc'] for r in res), claims_proven=sum(r['vcc'] for r in ok), claims_undecided=sum(r['vcc'] for r in und), queries=sum(r['left'] for r in res), solver_s=round(sum(r['solver'] for r in res), 2), undecided=[f"{r['name']}: {r['how'][:200]}" for r in und], samples=[dict(case=r['name'], status=r['status'], steps=r['steps'], conditions=r['vcc']) for r in res[:6]])
    R.write_evidence(pid, tier, cov, spec.get('assume', []), len(viol))
    print(f"{pid}: {len(res)} kernels, {cov['claims_proven']}/{cov['claims']} conditions proven, {len(und)} kernels undecided, solver {cov['solver_s']} s")
    for r in und[:8]: print('  undecided:', r['name'], r['how'][:250])
    for r, f in viol: print(f"  {r['name']}: {'; '.join(r['fails'][:3])}  on {' '.join(map(str, r['ints']))[:200]}"); print(f'VIOLATION property={pid} replay={f}')
    return 1 if viol else 0 if ok else 2
