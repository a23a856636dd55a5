"""C25: the parameter file parser and its accessors, decided by CBMC on C generated from clang's IR (engine/ir2c.cpp)."""
import concurrent.futures as cf, json, os, re, shutil, time
def tmpl(s): return s.replace('@', '\1').replace('~', '\2')
# (name, kind, template | None, length, extra defines, tiers);  '@' any character but a line break, '~' any character
def jobs(tier):
    J = []
    def p(name, t, tiers='qt', n=0, buf=(0, 1), **o):
        for b in buf: J.append(dict(name=name + ('_buffer' if b else '_file'), src='parse.cpp', t=t, n=n or len(t), buf=b, tiers=tiers, **o))
    p('line8', '@' * 8, 'q'); p('line10', '@' * 10, 't'); p('line12', '@' * 12, 't', buf=(0,)); p('line13', '@' * 13, 't', buf=(0,))
    p('key_then_line', 'k=v\n@@@@@@\nz=y', 'qt'); p('key_then_line9', 'k=v\n@@@@@@@@@\nz=y', 't')
    p('section_key_line', '[s]\nk=v\n@@@@@\n x', 'qt'); p('section_key_line8', '[s]\nk=v\n@@@@@@@@\n x', 't')
    p('blank_between', 'k=v\n\n@@@@@@', 'qt'); p('two_lines', '@@@@\n@@@', 'qt'); p('two_lines6', '@@@@@@\n@@@@@', 't'); p('three_lines', '@@@\n@@@\n@@@', 't')
    p('continuations', 'k=v\n @@@@\n@@@', 'q'); p('continuations5', 'k=v\n @@@@@\n @@@\n@@', 't')
    p('section_name', '[@@@@@@]@', 'qt'); p('long_key', '@@@@@@=@', 'qt'); p('long_key_continued', 'keykey=v\n@@@@', 'qt'); p('two_sections', '[a]\nk=1\n[@@@\n@=@', 'qt')
    p('free4', '~' * 4, 'q', buf=(0,)); p('free6', '~' * 6, 't', buf=(0,))
    p('length_symbolic', None, 'qt', n=4, buf=(0,))
    p('full_section', '[' + 's' * 48 + '@]\nk=v', 'qt', unscaled=1, buf=(0,)); p('full_key', 'n' * 48 + '@=v\n w', 'qt', unscaled=1)
    for w, nm in enumerate(['string', 'integer', 'float', 'bool', 'set']):
        e = 1 if w == 4 else 2
        J.append(dict(name='get_' + nm, src='getters.cpp', n=0, defs=f'-DWHAT={w} -DENTRIES={e}', cap=12 if w == 4 else 10, uw=14 if w == 4 else 12, tiers='qt'))
        if w in (1, 2, 3): J.append(dict(name=f'get_{nm}_longer', src='getters.cpp', n=0, defs=f'-DWHAT={w} -DENTRIES=1 -DSL=1 -DVL={4 if w == 2 else 6}', cap=10, uw=12, tiers='qt'))
        if w == 0: J.append(dict(name='get_string_3', src='getters.cpp', n=0, defs='-DWHAT=0 -DENTRIES=3', cap=10, uw=12, tiers='t'))
    J.append(dict(name='file_to_value', src='getters.cpp', n=0, defs='-DWHAT=5 -DENTRIES=1', cap=14, uw=16, tiers='qt'))
    return [j for j in J if tier[0] in j['tiers']]
CL = '-O1 -std=c++17 -w -fno-exceptions -fno-access-control -fno-builtin -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -nostdinc++'
def run(R, pid, spec, tier, wd, deadline, only):
    D = R.HERE + '/checks/ini'; E = R.HERE + '/engine/ir2c.cpp'; so = R.BUILD + '/ir2c.so'; U = R.SRC + '/utils/config'; os.makedirs(R.BUILD, exist_ok=True)
    fl = "$(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//')"
    R.once(so, R.hashfiles([E]), f'g++ -O1 -fPIC -shared -std=c++17 -w {fl} -fno-rtti {E} -o @OUT@')
    todo = [j for j in jobs(tier) if not only or re.search(only, j['name'])]; viol = []; res = []
    def scale(S, n):
        """copies the sources; the sizes of the line and name buffers are scaled down with the text (constants only)"""
        os.makedirs(S + '/inih', exist_ok=True)
        for f in os.listdir(U):
            if f.endswith(('.h', '.cpp')): shutil.copy(f'{U}/{f}', S)
        for f in os.listdir(U + '/inih'):
            if f.endswith(('.h', '.cpp')): shutil.copy(f'{U}/inih/{f}', S + '/inih')
        if not n: return False
        p = S + '/inih/ini.cpp'; s = open(p).read(); m = 0
        for nm, old, new in (('MAX_LINE', 200, n + 3), ('MAX_SECTION', 50, 5), ('MAX_NAME', 50, 5)):
            s, k = re.subn(r'(\b%s\b[\s=({]*)%d\b' % (nm, old), r'\g<1>%d' % new, s, count=1); m += k
        if m == 3: open(p, 'w').write(s)
        return m == 3
    def one(j):
        S = f"{wd}/{j['name']}"; n = j['n']; t0 = time.time(); scaled = scale(S, 0 if j.get('unscaled') or j['src'] != 'parse.cpp' else n); mx = 4 if scaled else 49
        cap = j.get('cap') or n + 2; uw = j.get('uw') or n + 3; d = f"-DLEN={n} -DMAXSEC={mx} -DMAXNAM={mx} -DCAP={cap} -DSCAP={cap} {j.get('defs', '')}" + (' -DBUFFER' if j.get('buf') else '')
        if j.get('t'): d += " '-DTEMPLATE=\"%s\"'" % ''.join('\\%03o' % ord(c) if not c.isalnum() else c for c in tmpl(j['t']))
        c = f'{S}/o.c'; left = deadline - time.time(); r = dict(name=j['name'], status='undecided', how='', vcc=0, solver=0.0, steps=0)
        if left < 20: r['how'] = 'no time left'; return r
        rc, out = R.sh(f'clang++-18 {CL} -fpass-plugin={so} {d} -I{D} -I{D}/inc -I{S} -I{S}/inih -c {D}/{j["src"]} -o /dev/null', 120, dict(os.environ, IR2C_OUT=c))
        if rc or not os.path.exists(c): r['how'] = 'not encodable: ' + out[-300:]; return r
        r['functions'] = [f for f in set(re.findall(r'f__ZN?K?\d*(\w+)\(', open(c).read()))][:0]
        rc, out = R.sh(f'ulimit -v 9000000; exec cbmc {c} --unwind {uw} --unwinding-assertions --bounds-check --pointer-check --max-field-sensitivity-array-size 256 --verbosity 8 --stop-on-fail --trace', max(10, min(j.get('tmo', 200 if tier == 'quick' else 1500), left - 10)))
        m = re.search(r'Generated (\d+) VCC\(s\), (\d+) remaining', out); r['vcc'] = int(m[1]) if m else 0; r['left'] = int(m[2]) if m else 0
        m = re.search(r'size of program expression: (\d+)', out); r['steps'] = int(m[1]) if m else 0
        r['solver'] = sum(float(x) for x in re.findall(r'Runtime (?:Solver|decision procedure): ([\d.e+-]+)s', out)); r['wall'] = round(time.time() - t0, 1)
        if 'VERIFICATION SUCCESSFUL' in out and r['vcc'] > 0: r['status'] = 'proven'; return r
        if 'VERIFICATION FAILED' not in out: r['how'] = 'solver gave no answer ' + out[-150:]; return r
        f = re.findall(r'Violated property:\n(.*\n.*\n.*)', out); r['label'] = ' '.join(f[-1].split())[-120:] if f else '?'; v = {}
        for a, b in re.findall(r'v_in\[(\d+)[ul]*\]=(\d+)', out): v[int(a)] = int(b)
        V = [v.get(i, 0) for i in range(max(v) + 1 if v else 1)]; r['bytes'] = V
        # replay on the natively compiled parser (address sanitizer on)
        exe = f'{S}/native'; env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0')
        if j['src'] == 'parse.cpp':
            if j.get('t'): txt = bytes(V[i] if ch in '\1\2' and i < len(V) else ord(ch) for i, ch in enumerate(tmpl(j['t'])))
            else: L = v.get(255, 0); txt = bytes(v.get(i, 0) for i in range(L))
            h = ''.join(str(v.get(n + i, 0) & 1) for i in range(6)); open(S + '/t.txt', 'wb').write(txt)
            rc, out = R.sh(f'g++ -O1 -g -w -std=c++17 -fno-access-control -fsanitize=address,undefined -DMAXSEC={mx} -DMAXNAM={mx} -I{D} -I{S} -I{S}/inih {D}/replay.cpp -o {exe} && {exe} {S}/t.txt {int(bool(j.get("buf")))} {h}', 120, env); r['input'] = repr(txt) + ' handler results ' + h
        else:
            rc, out = R.sh(f'g++ -O1 -g -w -std=c++17 -DNATIVE {d} -DCAP=64 -fno-access-control -fsanitize=address,undefined -I{D} -I{S} -I{S}/inih {D}/{j["src"]} -o {exe} && {exe} ' + ' '.join(map(str, V)), 120, env); r['input'] = 'bytes ' + ' '.join(map(str, V))
        fails = re.findall(r'NATIVE-FAIL (.*)', out)
        if not fails and ('AddressSanitizer' in out or 'runtime error' in out): fails = ['memory error: ' + (re.findall(r'(?:ERROR: AddressSanitizer: |runtime error: )(.{0,60})', out) or ['?'])[0]]
        if fails: r['status'] = 'violated'; r['fails'] = fails; r['scaled'] = scaled
        else: r['how'] = 'counterexample not reproduced natively: ' + r['label']
        return r
    with cf.ThreadPoolExecutor(spec.get('par', 6)) as ex:
        for r in ex.map(one, sorted(todo, key=lambda j: -j['n'] if j['src'] == 'parse.cpp' else -60)):
            res.append(r); R.log(r['name'], r['status'], r.get('wall'), 's', r['how'][:200], r.get('input', ''))
    rp = f'{R.HERE}/replays/{pid}'
    for r in res:
        if r['status'] == 'violated' and len(viol) < 5:
            os.makedirs(rp, exist_ok=True); f = f'{rp}/{len(viol)}.txt'
            open(f, 'w').write(f"property {pid}\nconfiguration {r['name']}\nparameter file / inputs: {r['input']}\nfails: {'; '.join(r['fails'])}\n" + ("(buffer sizes scaled down: MAX_SECTION and MAX_NAME 5)\n" if r['scaled'] else '')); viol.append((r, f))
    ok = [r for r in res if r['status'] == 'proven']; und = [r for r in res if r['status'] == 'undecided']
    cov = dict(explanation=spec['explain'], functions_encoded=spec['functions'], bounds=spec['bounds'], configurations=[f"{r['name']}: {r['status']} ({r.get('wall', 0)} s, {r['steps']} steps, {r['vcc']} conditions)" for r in res],
               claims=sum(r['vcc'] for r in res), claims_proven=sum(r['vcc'] for r in ok), claims_undecided=sum(r['vcc'] for r in und), queries=sum(r.get('left', 0) for r in res), solver_s=round(sum(r['solver'] for r in res), 2), undecided=[f"{r['name']}: {r['how'][:200]}" for r in und], samples=[dict(case=r['name'], status=r['status'], steps=r['steps'], conditions=r['vcc']) for r in res[:6]])
    R.write_evidence(pid, tier, cov, spec.get('assume', []), len(viol))
    print(f"{pid}: {len(res)} configurations, {cov['claims_proven']}/{cov['claims']} conditions proven, {len(und)} configurations undecided, solver {cov['solver_s']} s")
    for r in und[:8]: print('  undecided:', r['name'], r['how'][:150])
    for r, f in viol: print(f"  {r['name']}: {'; '.join(r['fails'][:3])}  on {r['input'][:200]}"); print(f'VIOLATION property={pid} replay={f}')
    return 1 if viol else 0 if ok else 2
