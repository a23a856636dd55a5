#!/usr/bin/env python3
"""Runs the check of one property:  run.py <ID> [--tier quick|thorough] [--only REGEX] [-v]
Builds the symbolic engine and the harness from /repo's current source, runs the harness symbolically for every
configuration of the property, decides the claims (engine/decide.cpp), replays counterexamples on the natively
compiled code, and writes evidence/<ID>.json.  Exit 0: held; 1: VIOLATION (replayed); 2: no answer."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(HERE, 'checks'))
REPO = os.environ.get('VERIF_REPO', '/repo'); BUILD = os.path.join(HERE, 'build'); SRC = REPO + '/src'
T0 = time.time()
VERB = '-v' in sys.argv
def log(*a):
    if VERB: print('[%6.1f]' % (time.time() - T0), *a, file=sys.stderr, flush=True)
class BuildError(Exception): pass
def sh(cmd, timeout=600, env=None, cwd=None, stdout=subprocess.PIPE):
    p = subprocess.Popen(cmd, shell=isinstance(cmd, str), stdout=stdout, stderr=subprocess.STDOUT, env=env, cwd=cwd, start_new_session=True)
    try: out, _ = p.communicate(timeout=timeout); return p.returncode, (out or b'').decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        out, _ = p.communicate(); return -9999, (out or b'').decode('utf8', 'replace')
def hashfiles(files, extra=''):
    h = hashlib.sha1(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]
def srcfiles():
    return [os.path.join(d, f) for d, _, fs in os.walk(SRC) for f in fs]
_SH = None
def srchash():
    global _SH
    if _SH is None: _SH = hashfiles(srcfiles())
    return _SH
# ---------------------------------------------------------------- building
KOK = '-lkokkoscore -lkokkoscontainers'
INC = f'-I{SRC} -I{SRC}/utils -I{SRC}/utils/config/inih -I{SRC}/muscl -I{HERE}/checks -I{HERE}/engine'
H5S = '-L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5 -lhdf5_hl'
def flags(kind):
    d = '-DNDEBUG -std=c++17 -DUSE_HDF5 -DUSE_DOUBLE -DKOKKOS_DEPENDENCE -w -fno-access-control '
    if 'mpi' in kind:
        d += '-DUSE_MPI -DUSE_HDF5_PARALLEL -DUSE_MPI_CUDA_AWARE_ENFORCED=0 ' if False else '-DUSE_MPI -DUSE_HDF5_PARALLEL '
        d += '-I/usr/include/hdf5/openmpi ' + sh('mpicxx --showme:compile')[1].strip() + ' '
    else: d += '-DUSE_SDM -I/usr/include/hdf5/serial '
    if kind.startswith('nat'): return 'g++ -O2 -fopenmp ' + d + INC
    mem = ' -fsanitize-address-use-after-scope' if False else ''
    return (f'clang++-18 -O2 -D_OPENMP=201511 -DVERIF_SYM=1 -I{HERE}/engine/include {d}{INC} -fno-vectorize -fno-slp-vectorize -ffp-contract=off -fno-math-errno'
            f' -mllvm -two-entry-phi-node-folding-threshold=400 -fpass-plugin={BUILD}/pass.so' + mem)
def libs(kind):
    if 'mpi' in kind: return KOK + ' -L/usr/lib/x86_64-linux-gnu/hdf5/openmpi -lhdf5 ' + sh('mpicxx --showme:link')[1].strip() + ' -lgomp'
    return KOK + ' ' + H5S + ' -lgomp'
def once(target, key, cmd, timeout=900, env=None):
    """runs cmd (which must create target.tmp) unless target was built from the same key"""
    kf = target + '.key'
    if os.path.exists(target) and os.path.exists(kf) and open(kf).read() == key: return target
    tmp = f'{target}.{os.getpid()}.{threading.get_ident()}.tmp'
    rc, out = sh(cmd.replace('@OUT@', tmp), timeout, env)
    if rc != 0 or not os.path.exists(tmp):
        if os.path.exists(tmp): os.remove(tmp)
        raise BuildError(f'{os.path.basename(target)}: rc={rc}\n{cmd}\n' + out[-3000:])
    os.rename(tmp, target); open(kf, 'w').write(key); return target
def engine(names=('pass.so', 'rt.o', 'native.o', 'decide')):
    os.makedirs(BUILD, exist_ok=True); E = HERE + '/engine/'; jobs = []
    for n in names:
        if n == 'pass.so':
            fl = "$(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//')"
            jobs.append((BUILD + '/pass.so', hashfiles([E + 'pass.cpp']), f'g++ -O1 -fPIC -shared -std=c++17 {fl} -fno-rtti {E}pass.cpp -o @OUT@'))
        elif n == 'rt.o': jobs.append((BUILD + '/rt.o', hashfiles([E + 'rt.cpp', E + 'sym.h', E + 'ops.h']), f'g++ -O2 -std=c++17 -w -c {E}rt.cpp -o @OUT@'))
        elif n == 'native.o': jobs.append((BUILD + '/native.o', hashfiles([E + 'native.cpp', E + 'sym.h']), f'g++ -O2 -std=c++17 -w -c {E}native.cpp -o @OUT@'))
        elif n == 'decide': jobs.append((BUILD + '/decide', hashfiles([E + 'decide.cpp', E + 'ops.h']), f'g++ -O2 -std=c++17 -w {E}decide.cpp -o @OUT@'))
    with cf.ThreadPoolExecutor(4) as ex: list(ex.map(lambda j: once(*j), jobs))
BASE = ['shared/HydroParams.cpp', 'shared/SolverBase.cpp', 'shared/utils.cpp', 'utils/config/ConfigMap.cpp', 'utils/config/inih/ini.cpp', 'utils/config/inih/INIReader.cpp',
        'utils/io/IO_HDF5.cpp', 'utils/io/IO_ReadWrite.cpp', 'utils/io/IO_VTK.cpp', 'utils/io/IO_common.cpp', 'utils/monitoring/SimpleTimer.cpp', 'utils/monitoring/OpenMPTimer.cpp']
LIBSETS = {'base': BASE, 'hydro': BASE + ['muscl/SolverHydroMuscl.cpp'], 'mhd': BASE + ['muscl/SolverMHDMuscl.cpp'], 'muscl': BASE + ['muscl/SolverHydroMuscl.cpp', 'muscl/SolverMHDMuscl.cpp'],
           'sdm': BASE + ['utils/io/IO_VTK_SDM.cpp', 'utils/io/IO_VTK_SDM_Flux.cpp', 'utils/io/IO_VTK_SDM_shared.cpp', 'utils/io/IO_ReadWrite_SDM.cpp'], 'none': []}
MPIX = ['utils/mpiUtils/MpiComm.cpp', 'utils/mpiUtils/MpiCommCart.cpp', 'utils/mpiUtils/GlobalMpiSession.cpp', 'utils/mpiUtils/ErrorPolling.cpp']
def build(h, kind):
    """h: dict(src=, libs=, defs=, mem=); returns the executable"""
    d = f'{BUILD}/{kind}'; os.makedirs(d, exist_ok=True)
    rtfiles = [HERE + '/engine/' + x for x in ('pass.cpp', 'ops.h', 'sym.h')]
    base = srchash() + hashfiles(rtfiles) + kind; fl = flags(kind); env = dict(os.environ)
    if 'mem' in kind: env['RT_MEM'] = '1'
    units = list(LIBSETS[h.get('libs', 'base')]) + (MPIX if 'mpi' in kind else [])
    extra = [x for x in h.get('extra', [])]; jobs = []; objs = []
    for u in units + extra:
        p = f'{SRC}/{u}'
        if not os.path.exists(p): continue
        o = f'{d}/' + u.replace('/', '_').replace('.cpp', '.o'); objs.append(o); jobs.append((o, base, f'{fl} -c {p} -o @OUT@', 900, env))
    hs = f'{HERE}/checks/{h["src"]}'; hk = hashfiles([hs] + glob.glob(HERE + '/checks/*.h'), base + h.get('defs', '')); hname = h['name']
    ho = f'{d}/h_{hname}.o'; jobs.insert(0, (ho, hk, f'{fl} {h.get("defs","")} -c {hs} -o @OUT@', 900, env))
    errs = []
    with cf.ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(once, *j) for j in jobs]:
            try: f.result()
            except BuildError as e: errs.append(str(e))
    if errs: raise BuildError(errs[0])
    rt = BUILD + ('/native.o' if kind.startswith('nat') else '/rt.o'); exe = f'{d}/x_{hname}'; cc = 'g++ -fopenmp' if kind.startswith('nat') else 'clang++-18'
    return once(exe, hk + hashfiles([rt]), f'{cc} {ho} {" ".join(objs)} {rt} -o @OUT@ {libs(kind)} {h.get("ld", "")}')
MPIENV = dict(OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_btl='self,vader', OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_oob_tcp_if_include='lo',
              OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_hwloc_base_binding_policy='none', OMPI_MCA_plm_rsh_agent='/bin/false', OMPI_MCA_ess_base_vader='', )
def runenv(**kw):
    e = dict(os.environ); e.update(OMP_NUM_THREADS='1', OMP_PROC_BIND='false', HDF5_USE_FILE_LOCKING='FALSE'); e.update(MPIENV); e.pop('OMPI_MCA_ess_base_vader', None)
    e.update({k: str(v) for k, v in kw.items()}); return e
# ---------------------------------------------------------------- one configuration
class Job:
    def __init__(s, name, args, **o): s.name = name; s.args = args; s.o = o
def execute(exe, args, out, wd, seed=None, seedfile=None, np=0, timeout=120, extra=None):
    kw = dict(RT_OUT=out)
    if seed is not None: kw['RT_SEED'] = seed
    if seedfile: kw['RT_SEEDFILE'] = seedfile
    if extra: kw.update(extra)
    cmd = ([*('mpirun -np %d' % np).split()] if np else []) + [exe] + args
    return sh(cmd, timeout, runenv(**kw), cwd=wd)
def decide(dump, out, cex, opts, timeout):
    return sh([BUILD + '/decide', dump, '--out', out, '--cex', cex] + opts, timeout)
def runjob(h, job, wd, tier, deadline):
    """returns a dict: runs, results, violations(list of dict(label, seedfile)), notes"""
    R = dict(job=job.name, args=job.args, runs=[], cands=[], errors=[]); o = job.o; exe = h['exe']
    seeds = list(o.get('seeds', [1])); work = [('s', x) for x in seeds]; sigs = set(); maxp = o.get('dse', 0); nrun = 0
    base = int(os.environ.get('VERIF_SEED', '1') or 1)
    while work:
        if time.time() > deadline: R['errors'].append('time budget reached'); break
        kind, val = work.pop(0); nrun += 1
        jd = f'{wd}/{job.name}_{nrun}'; os.makedirs(jd, exist_ok=True); dump = jd + '/d'
        rc, out = execute(exe, job.args, dump, jd, seed=(val + 1000 * (base - 1)) if kind == 's' else None, seedfile=val if kind == 'f' else None, np=o.get('np', 0), timeout=o.get('rt_timeout', 200), extra=o.get('env'))
        if rc == 77: continue          # the seed does not satisfy an assumption
        if rc != 0 or not os.path.exists(dump):
            R['errors'].append(f'symbolic run rc={rc}: ' + out[-400:]); R['cands'].append(dict(label='crash', seedfile=val if kind == 'f' else None, seed=val if kind == 's' else None, crash=True)); continue
        opts = list(o.get('opts', [])) + ['--oblt', str(o.get('oblt', 2 if tier == 'quick' else 40)), '--budget', str(o.get('budget', 60 if tier == 'quick' else 300)), '--seed', str(base)]
        if maxp: opts += ['--negate', jd + '/n', '--negmax', str(o.get('negmax', 30)), '--tried', f'{wd}/{job.name}.tried', '--negtime', str(o.get('negtime', 1.5 if tier == 'quick' else 30))]
        if o.get('post'):              # property specific analysis of the run (memory traces, ...)
            r = o['post'](R, jd, dump, job, tier)
        rc, out = decide(dump, jd + '/r.json', jd + '/c', opts, o.get('budget', 60 if tier == 'quick' else 300) * 2 + 60)
        if rc != 0: R['errors'].append(f'decide rc={rc}: ' + out[-400:]); continue
        j = json.load(open(jd + '/r.json')); j['stderr'] = out[-300:]; sg = hashlib.sha1(j['pathsig'].encode()).hexdigest(); new = sg not in sigs; sigs.add(sg)
        R['runs'].append(j)
        for r in j['results']:
            if r['status'] == 'violated': R['cands'].append(dict(label=r['label'], seedfile=f"{jd}/c{r['cex']}.seed" if r['cex'] >= 0 else None))
        if maxp and new:
            for f in sorted(glob.glob(jd + '/n*.seed')):
                if len(sigs) + len(work) < maxp * 3 and nrun + len(work) < maxp: work.append(('f', f))
        if not (maxp or o.get('keep')):
            try: os.remove(dump)
            except OSError: pass
    R['paths'] = len(sigs); return R
def replay(h, job, cand, kind, wd, idx):
    """re-executes the counterexample on the natively compiled code; returns list of failing labels"""
    jd = f'{wd}/replay_{job.name}_{idx}'; os.makedirs(jd, exist_ok=True)
    rc, out = execute(h['nat'], job.args, jd + '/x', jd, seed=cand.get('seed'), seedfile=cand.get('seedfile'), np=job.o.get('np', 0), timeout=120, extra=job.o.get('env'))
    fails = re.findall(r'NATIVE-FAIL (.*?) : (.*)', out); done = re.findall(r'NATIVE-DONE claims=(\d+) fails=(\d+) assume_broken=(\d+)', out)
    if cand.get('crash'): return [('crash', f'rc={rc}')] if (rc < 0 or rc > 128) and not done else [f for f in fails]
    if done and any(d[2] == '1' for d in done): return []
    return fails
def known():
    p = HERE + '/known_findings.json'
    return json.load(open(p)) if os.path.exists(p) else dict(findings=[], fixed=[])
def main():
    import checks as CH
    pid = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    spec = CH.CHECKS[pid]; budget = spec.get('wall', {}).get(tier, 420 if tier == 'quick' else 3000); deadline = T0 + budget
    wd = tempfile.mkdtemp(prefix=f'verif_{pid}_'); code = 2
    try: code = check(CH, pid, spec, tier, only, wd, deadline)
    except BuildError as e: print(f'{pid}: cannot build the harness from the current tree:\n{e}')
    finally:
        if '--keep' not in sys.argv: shutil.rmtree(wd, ignore_errors=True)
        else: print('kept', wd)
    sys.stdout.flush(); sys.exit(code)
def check(CH, pid, spec, tier, only, wd, deadline):
    engine(); log('engine built')
    if spec.get('custom'): return spec['custom'](sys.modules[__name__], pid, spec, tier, wd, deadline, only)
    groups = spec['groups'](tier); allR = []; viol = []; spurious = []; kf = []; kfs = known(); seenkf = set(); jobs = []
    def bld(h):
        h['exe'] = build(h, h.get('kind', 'sym'))
    # the first build makes the shared libraries, the others only add their harness
    for h, _ in groups[:1]: bld(h)
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(lambda g: bld(g[0]), groups[1:]))
    log('harness built')
    for h, js in groups:
        for j in js:
            if only and not re.search(only, j.name): continue
            jobs.append((h, j))
    with cf.ThreadPoolExecutor(spec.get('par', 8)) as ex:
        futs = {ex.submit(runjob, h, j, wd, tier, deadline): (h, j) for h, j in jobs}
        for f in cf.as_completed(futs):
            h, j = futs[f]; R = f.result(); R['h'] = h; R['jobobj'] = j; allR.append(R); rr = R['runs']
            log(j.name, 'paths', R['paths'], 'proven', sum(x['proven'] for x in rr), 'violated', sum(x['violated'] for x in rr), 'undecided', sum(x['undecided'] for x in rr), 'obl', sum(x['obl_unsat'] for x in rr), '/', sum(x['obligations'] for x in rr), 'mism', sum(x['mismatch'] for x in rr), 'wall', round(sum(x['wall_s'] for x in rr), 1), *R['errors'][:1])
            if VERB:
                for x in rr:
                    for q in x['results']:
                        if q['status'] == 'undecided': log('   undecided:', q['label'], q['how'])
    # replay candidates natively
    cands = [(R, c) for R in allR for c in R['cands']]
    for x in (c for _, c in cands): log('candidate:', x['label'], x.get('seedfile'))
    nrep = 0
    for R, c in cands:
        if nrep >= 40 or (viol and nrep >= 12): break
        h, j = R['h'], R['jobobj']
        if 'nat' not in h: h['nat'] = build(h, h.get('kind', 'sym').replace('symmem', 'sym').replace('sym', 'nat'))
        nrep += 1
        if c.get('confirmed'): fails = c['confirmed']
        else: fails = replay(h, j, c, h.get('kind', 'sym'), wd, nrep)
        if not fails: spurious.append(f"{R['job']}: {c['label']}"); continue
        unk = []
        for lab, val in fails:
            m = next((k for k in kfs['findings'] if k['property'] == pid and re.search(k['job'], R['job']) and re.search(k['label'], lab)), None)
            if m: seenkf.add(m['what'])
            else: unk.append((lab, val))
        if unk and len(viol) < 5:
            rp = f'{HERE}/replays/{pid}'; os.makedirs(rp, exist_ok=True); base = f'{rp}/{len(viol)}'
            if c.get('seedfile'): shutil.copy(c['seedfile'], base + '.seed')
            with open(base + '.txt', 'w') as f:
                f.write(f"property {pid}\nharness checks/{h['src']} (native build: g++ -O2 -fopenmp, engine/native.cpp)\nargs: {' '.join(j.args)}\ninputs: {base + '.seed' if c.get('seedfile') else 'RT_SEED=' + str(c.get('seed'))}\nfailing claims (value computed : value required):\n" + '\n'.join(f'  {a} : {b}' for a, b in unk[:20]) + '\n')
            viol.append((R['job'], unk, base + '.txt'))
    S = lambda k: sum(x[k] for R in allR for x in R['runs']); nerr = [e for R in allR for e in R['errors']]
    und = sorted({f"{R['job']}: {q['label']}" for R in allR for x in R['runs'] for q in x['results'] if q['status'] == 'undecided'})
    cov = dict(explanation=spec['explain'] + ' Measured on this run: configurations, explored paths, claims, how many the solver discharged (claims_proven), left undecided (claims_undecided: neither proven nor refuted within the budget) or refuted and replayed; SMT obligations over the operations of the real code with verdict unsat / unknown / sat-in-abstraction; number of recorded floating point operations.',
               functions_encoded=spec['functions'], bounds=spec['bounds'], configurations=[f"{R['job']}: {' '.join(R['args'])}" for R in allR], paths=sum(R['paths'] for R in allR), claims=S('claims'), claims_proven=S('proven'), claims_undecided=S('undecided'), claims_refuted=S('violated'),
               undecided=und[:60], refuted_not_reproduced=spurious[:20], obligations=S('obligations'), obligations_unsat=S('obl_unsat'), obligations_unknown=S('obl_unknown'), obligations_sat_in_abstraction=S('obl_sat'), smt_queries=S('queries'), smt_unsat=S('unsat'), smt_sat=S('sat'), smt_unknown=S('unknown'), solver_time_s=round(S('solver_s'), 2),
               path_negations=S('negations'), path_negations_unsat=S('negations_unsat'), encoded_operations=S('ops'), dag_nodes=S('live'), merges=S('merges'), canonical_mismatches=S('mismatch'), errors=nerr[:10], samples=[dict(config=R['job'], claims=[q['label'] + ' -> ' + q['status'] + ' (' + q['how'] + ')' for x in R['runs'][:1] for q in x['results'][:3]]) for R in allR[:4]])
    if spec.get('extra'): cov.update(spec['extra'](allR))
    write_evidence(pid, tier, cov, spec.get('assume', []), len(viol))
    for w in sorted(seenkf): print(f'KNOWN-FINDING: property={pid} {w}')
    print(f"{pid}: {len(allR)} configurations, {cov['paths']} paths, {cov['claims_proven']}/{cov['claims']} claims proven, {cov['claims_undecided']} undecided, {cov['obligations_unsat']}/{cov['obligations']} obligations unsat, {len(spurious)} unconfirmed, {len(nerr)} errors, {time.time()-T0:.0f}s")
    for e in nerr[:5]: print('  note:', e[:300])
    if viol:
        for job, unk, path in viol:
            print(f'  {job}: ' + '; '.join(f'{a} ({b})' for a, b in unk[:3])); print(f'VIOLATION property={pid} replay={path}')
        return 1
    if cov['claims'] == 0 or cov['claims_proven'] == 0: print(f'{pid}: nothing was decided'); return 2
    return 0
def write_evidence(pid, tier, cov, assume, nviol, level='other'):
    os.makedirs(HERE + '/evidence', exist_ok=True)
    json.dump(dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level, coverage=cov, assumptions=assume, wall_s=round(time.time() - T0, 2), violations=nviol), open(f'{HERE}/evidence/{pid}.json', 'w'), indent=1)
if __name__ == '__main__':
    if len(sys.argv) < 2: print(__doc__); sys.exit(2)
    if sys.argv[1] == '--setup': engine(); sys.exit(0)
    main()
