"""Configurations of every check."""
import sys
R = sys.modules['__main__'] if hasattr(sys.modules['__main__'], 'Job') else None
if R is None:
    import run as R
Job = R.Job
COMMON = ['Floating point is modelled by real arithmetic: rounding is ignored, constants are the exact values of the doubles (snapped to small rationals for the solver); coefficients that cancel below 1e-11 relative count as zero.',
          'Inputs lie in the stated boxes; points where a comparison of two different expressions is an exact tie are excluded (measure zero).', 'Divisors are assumed non-zero.',
          'Trusted: clang 18 front end and optimiser, engine/pass.cpp, engine/rt.cpp, engine/decide.cpp (cross-checked on sample points on every run), z3.', 'Kokkos kernels run serially in the symbolic build (see C18 for schedule independence).']
BOX = 'density and pressure in [1/8,8], each velocity component in [-2,2], magnetic field components in [-2,2], time step in [1/1024,1/16]'
CHECKS = {}
def per(n=2): return [f'mesh.boundary_type_{a}{b}=3' for a in 'xyz'[:n] for b in ('min', 'max')]
def hydro(dim, nx, ny, nz, riem, impl, mode, *more, bc=None, slope='1.0', gamma='1.5'):
    return [f'run.solver_name=Hydro_Muscl_{dim}D', f'mesh.nx={nx}', f'mesh.ny={ny}', f'mesh.nz={nz}', f'hydro.riemann={riem}', f'OTHER.implementationVersion={impl}', 'hydro.problem=none', f'hydro.gamma0={gamma}', f'hydro.slope_type={slope}', f'_mode={mode}'] + (per(dim) if bc is None else bc) + list(more)
H_HYDRO = lambda: dict(name='hydro_step', src='hydro_step.cpp', libs='hydro')
# ------------------------------------------------------------------ C01
def c01(tier):
    J = []; T = tier == 'thorough'
    for impl in (0, 1):
        for r in ('llf', 'hll', 'hllc', 'approx'):
            J.append(Job(f'2d_v{impl}_{r}', hydro(2, 4, 3, 1, r, impl, 'conserve', '_symgeo=1', '_slope=' + ('1' if impl else '2')), seeds=[1, 2, 3] if T else [1]))
            J.append(Job(f'3d_v{impl}_{r}', hydro(3, 3, 3, 3 if T else 2, r, impl, 'conserve', '_symgeo=1'), seeds=[1, 2] if T else [1]))
    return [(H_HYDRO(), J)]
CHECKS['C01'] = dict(groups=c01, functions=['SolverHydroMuscl<2|3>::godunov_unsplit_impl', 'make_boundaries', 'ConvertToPrimitivesFunctor', 'ComputeAndStoreFluxesFunctor', 'UpdateFunctor', 'ComputeSlopesFunctor', 'ComputeTraceAndFluxes_Functor', 'UpdateDirFunctor', 'riemann_llf/hll/hllc/approx'],
    bounds='periodic grids 4x3 and 3x3x2 cells (3x3x3 thorough), every cell value symbolic, cell sizes symbolic in [1/4,1]; ' + BOX + '; branches that remain after if-conversion (hllc, approx) are followed for 1 seed path per configuration (several in thorough)',
    explain='The whole time step of the real solver class is executed symbolically on a periodic grid and the difference of the sums of each conserved variable before and after is decided to be zero.', assume=COMMON)
def c04(tier):
    J = []
    for impl in (0, 1):
        for r in ('llf', 'hll', 'hllc', 'approx'):
            J.append(Job(f'hydro2d_v{impl}_{r}', hydro(2, 2, 2, 1, r, impl, 'uniform', '_symgeo=1'), seeds=[1, 2]))
            J.append(Job(f'hydro3d_v{impl}_{r}', hydro(3, 2, 2, 2, r, impl, 'uniform', '_symgeo=1'), seeds=[1, 2]))
    M = [Job(f'mhd{d}d_v{impl}_{r}', mhd(d, 2, 2, 2 if d == 3 else 1, r, impl, 'uniform'), seeds=[1, 2]) for d in (2, 3) for impl in (0, 1, 2) for r in ('llf', 'hll', 'hlld')]
    return [(H_HYDRO(), J), (H_MHD(), M)]
CHECKS['C04'] = dict(groups=c04, functions=['SolverHydroMuscl<2|3>::godunov_unsplit_impl', 'make_boundaries', 'all functors of HydroRunFunctors2D/3D.h used by implementation versions 0 and 1', 'riemann_llf/hll/hllc/approx (2D and 3D)', 'SolverMHDMuscl<2|3>::godunov_unsplit_impl', 'make_boundaries', 'all functors of MHDRunFunctors2D/3D.h used by implementation versions 0, 1 and 2', 'riemann_mhd (llf, hll, hlld)', 'compute_emf'],
    bounds='periodic grids of 2 cells per direction holding one symbolic state; density and pressure in [1/8,8], velocity components in [-2,2], magnetic components in [-2,2], dt in [1/1024,1/16], cell sizes in [1/4,1]; 2 paths per configuration',
    explain='The whole time step of the real solver classes with the real Riemann solvers runs symbolically on a uniform state and every cell is decided to be unchanged.', assume=COMMON)
def c08(tier):
    J = []
    for r in ('llf', 'hll', 'hllc', 'approx'):
        J.append(Job(f'hydro2d_{r}', hydro(2, 3, 3, 1, r, 0, 'impl', '_symgeo=1')))
        J.append(Job(f'hydro3d_{r}', hydro(3, 3, 3, 3, r, 0, 'impl', '_symgeo=1')))
    A = [Job(f'hydro{d}d_any_s{sl[0]}', hydro(d, 3, 3, 3 if d == 3 else 1, 'hllc', 0, 'impl', '_symgeo=1', slope=sl)) for d in (2, 3) for sl in ('1.0', '2.0')]; M = []
    for o in (1, 2):
        for sl in ('1.0', '2.0'):
            M.append(Job(f'mhd2d_v0_v{o}_s{sl[0]}', mhd(2, 4, 3, 1, 'hlld', 0, 'impl', f'_other={o}', '_tame=' + str(int(o == 2)), slope=sl)))
            M.append(Job(f'mhd3d_v0_v{o}_s{sl[0]}', mhd(3, 3, 3, 3, 'hlld', 0, 'impl', f'_other={o}', '_tame=' + str(int(o == 2)), slope=sl)))
    return [(H_HYDRO(), J), (H_STUB(), A), (H_MSTUB(), M)]
CHECKS['C08'] = dict(groups=c08, functions=['SolverHydroMuscl<2|3>::godunov_unsplit_impl', 'make_boundaries', 'all functors of HydroRunFunctors2D/3D.h used by implementation versions 0 and 1', 'riemann_llf/hll/hllc/approx (2D and 3D)', 'SolverMHDMuscl<2|3>::godunov_unsplit_impl', 'make_boundaries', 'all functors of MHDRunFunctors2D/3D.h used by implementation versions 0, 1 and 2'],
    bounds='hydro: 3x3 and 3x3x3 periodic cells with each real Riemann solver and with an uninterpreted one (slope types 1, 2); MHD: 4x3 and 3x3x3 cells with uninterpreted Riemann and EMF solvers; density and pressure in [1/8,8], velocity components in [-2,2], magnetic components in [-2,2], dt in [1/1024,1/16], cell sizes in [1/4,1]; version 2 of MHD in a smaller box (density, pressure in [1,2], velocity and field in [-1/2,1/2], dt <= 1/64, cells >= 1/2) where no floor is reached, because its pressure floor is scaled by the density',
    explain='Two implementation versions run symbolically on the same state and every updated cell value is decided to be equal.', assume=COMMON)
H_STUB = lambda: dict(name='hydro_stub', src='hydro_step.cpp', libs='base', defs='-DSTUB')
def c09(tier):
    def jobs(r, tag, slopes):
        J = []
        for impl in (0, 1):
            for sl in slopes:
                n = f'v{impl}_{tag}_s{sl[0]}'; o = ['_symgeo=1']; kw = dict(slope=sl)
                J.append(Job(f'perm2d_{n}', hydro(2, 3, 3, 1, r, impl, 'perm', '_symgeo=1', '_perm=102', slope=sl)))
                for p in ('102', '120') + (('021', '210') if tier == 'thorough' else ()): J.append(Job(f'perm3d_{p}_{n}', hydro(3, 3, 3, 3, r, impl, 'perm', '_symgeo=1', '_perm=' + p, slope=sl)))
                for d in range(2): J.append(Job(f'mirror2d_{d}_{n}', hydro(2, 3, 3, 1, r, impl, 'mirror', '_symgeo=1', f'_axis={d}', slope=sl)))
                for d in range(3): J.append(Job(f'mirror3d_{d}_{n}', hydro(3, 3, 3, 3, r, impl, 'mirror', '_symgeo=1', f'_axis={d}', slope=sl)))
        return J
    M = []
    for impl in (0, 1, 2):
        for p in ('102',): M.append(Job(f'mhd_perm2d_{p}_v{impl}', mhd(2, 3, 3, 1, 'hlld', impl, 'perm', '_perm=' + p)))
        for p in ('102', '120') + (('021', '210') if tier == 'thorough' else ()): M.append(Job(f'mhd_perm3d_{p}_v{impl}', mhd(3, 3, 3, 3, 'hlld', impl, 'perm', '_perm=' + p)))
        for d in range(2): M.append(Job(f'mhd_mirror2d_{d}_v{impl}', mhd(2, 4, 3, 1, 'hlld', impl, 'mirror', f'_axis={d}')))
        for d in range(3): M.append(Job(f'mhd_mirror3d_{d}_v{impl}', mhd(3, 3, 3, 3, 'hlld', impl, 'mirror', f'_axis={d}')))
    return [(H_STUB(), jobs('hllc', 'any', ('1.0', '2.0'))), (H_HYDRO(), jobs('llf', 'llf', ('1.0',))), (H_MSTUB(), M)]
CHECKS['C09'] = dict(groups=c09, functions=['SolverHydroMuscl<2|3>::godunov_unsplit_impl', 'make_boundaries', 'all functors of HydroRunFunctors2D/3D.h used by implementation versions 0 and 1', 'riemann_llf/hll/hllc/approx (2D and 3D)', 'SolverMHDMuscl<2|3>::godunov_unsplit_impl', 'make_boundaries', 'all functors of MHDRunFunctors2D/3D.h used by implementation versions 0, 1 and 2'],
    bounds='periodic 3x3 and 3x3x3 cells (4x3 for 2D MHD mirrors); density and pressure in [1/8,8], velocity components in [-2,2], magnetic components in [-2,2], dt in [1/1024,1/16], cell sizes in [1/4,1]; Riemann and EMF solvers are arbitrary functions having the symmetries decided by C07, and also the real llf solver for hydro',
    explain='The step runs on a state and on its permuted or mirrored image and every cell value is decided to correspond.', assume=COMMON)
# ------------------------------------------------------------------ Riemann solvers
H_RIEM = lambda: dict(name='riemann', src='riemann.cpp', libs='base')
def riem(kind, r, mode, *more): return [f'run.solver_name={dict(hydro2d="Hydro_Muscl_2D", hydro3d="Hydro_Muscl_3D", mhd="MHD_Muscl_3D", emf="MHD_Muscl_3D")[kind]}', f'hydro.riemann={r}', f'_kind={kind}', f'_mode={mode}', *more]
HS = [('hydro2d', r) for r in ('llf', 'hll', 'hllc', 'approx')] + [('hydro3d', r) for r in ('llf', 'hll', 'hllc', 'approx')]
MS = [('mhd', r) for r in ('llf', 'hll', 'hlld')]
def rjob(kind, r, mode, *more, name=None, dse=12, **kw):
    return Job(name or f'{kind}_{r}_{mode}' + ''.join('_' + m.split('=')[0][1:] + m.split('=')[1].replace('-', 'm') for m in more), riem(kind, r, mode, *more), env=dict(RT_NOITE='1'), dse=dse, seeds=kw.pop('seeds', [1, 2]), **kw)
def c05(tier):
    J = []; k = 4 if tier == 'thorough' else 1
    for kind, r in HS + MS + [('mhd', 'approx'), ('mhd', 'hllc'), ('hydro2d', 'hlld'), ('hydro3d', 'hlld')]:
        J.append(rjob(kind, r, 'consist', dse=16 * k)); J += [rjob(kind, r, 'consist', f'_dir={d}', dse=8 * k) for d in (1, -1)]
        J.append(rjob(kind, r, 'consist', '_zero=u', dse=8 * k))
    for z in ('a', 'abc', 'bc', 'uvw'): J += [rjob('mhd', r, 'consist', '_zero=' + z, dse=8 * k) for r in ('llf', 'hll', 'hlld')]
    for d in range(3): J.append(rjob('emf', 'hlld', 'consist', f'_emfdir={d}', dse=16 * k))
    return [(H_RIEM(), J)]
CHECKS['C05'] = dict(groups=c05, functions=['riemann_hydro -> riemann_approx/llf/hll/hllc (2D, 3D)', 'riemann_mhd -> riemann_llf/hll/hlld', 'compute_emf / mag_riemann2d_hlld', 'HydroParams::setup (solver selection)'],
    bounds='one symbolic state; density and pressure in [1/8,8], velocity components in [-2,2], magnetic components in [-2,2], dt in [1/1024,1/16], cell sizes in [1/4,1], gamma in [1.1,2]; paths bounded per configuration (see path counts), path decisions negated by search and z3',
    explain='Each selectable solver runs symbolically on two identical states, every feasible branch is explored by negating path conditions, and flux = physical flux is decided on each path.', assume=COMMON)
def c06(tier):
    J = []; k = 4 if tier == 'thorough' else 1
    for kind, r in HS + MS:
        if r != 'llf': J += [rjob(kind, r, 'super', f'_dir={d}', dse=8 * k) for d in (1, -1)]
        J.append(rjob(kind, r, 'formula', dse=(14 if r == 'approx' else 20) * k))
    for d in range(3):
        for sx in (1, -1):
            for sy in (1, -1): J.append(rjob('emf', 'hlld', 'super', f'_emfdir={d}', f'_dx={sx}', f'_dy={sy}', dse=4 * k))
    return [(H_RIEM(), J)]
CHECKS['C06'] = dict(groups=c06, functions=['riemann_hydro -> riemann_approx/llf/hll/hllc (2D, 3D)', 'riemann_mhd -> riemann_llf/hll/hlld', 'compute_emf / mag_riemann2d_hlld'],
    bounds='two (four for the EMF) symbolic states; density and pressure in [1/8,8], velocity components in [-2,2], magnetic components in [-2,2], dt in [1/1024,1/16], cell sizes in [1/4,1], gamma in [1.1,2]; bounded number of paths',
    explain='Each solver runs symbolically on two independent states and is compared, on every explored path, with the published formula of that solver (LLF, HLL, HLLC of Toro, HLLD of Miyoshi and Kusano, physical flux of the interface state for approx); under the supersonic assumption with the upwind flux.', assume=COMMON)
def c07(tier):
    J = []; k = 4 if tier == 'thorough' else 1
    for kind, r in HS + MS:
        for m in ('mirror',) + (('trans',) if kind != 'hydro2d' else ()) + ('tflip',) + (('neg',) if kind == 'mhd' else ()): J.append(rjob(kind, r, m, dse=(8 if r in ('approx', 'hlld') else 14) * k))
    for d in range(3):
        for m in ('swap', 'mirror', 'rot', 'neg'): J.append(rjob('emf', 'hlld', m, f'_emfdir={d}', dse=5 * k))
    return [(H_RIEM(), J)]
CHECKS['C07'] = dict(groups=c07, functions=['riemann_hydro -> riemann_approx/llf/hll/hllc (2D, 3D)', 'riemann_mhd -> riemann_llf/hll/hlld', 'compute_emf / mag_riemann2d_hlld'],
    bounds='two (four for the EMF) symbolic states; density and pressure in [1/8,8], velocity components in [-2,2], magnetic components in [-2,2], dt in [1/1024,1/16], cell sizes in [1/4,1], gamma in [1.1,2]; bounded number of paths',
    explain='Each solver runs symbolically on the original and on the transformed problem (mirrored, transverse axes exchanged or reflected, magnetic field reversed) and the fluxes are decided to correspond on every explored path.', assume=COMMON)
# ------------------------------------------------------------------ MHD steps
H_MHD = lambda: dict(name='mhd_step', src='mhd_step.cpp', libs='mhd')
H_MSTUB = lambda: dict(name='mhd_stub', src='mhd_step.cpp', libs='base', defs='-DSTUB')
def mhd(dim, nx, ny, nz, riem, impl, mode, *more, bc=None, slope='1.0', gamma='1.5'):
    a = hydro(dim, nx, ny, nz, riem, impl, mode, *more, bc=bc, slope=slope, gamma=gamma); a[0] = f'run.solver_name=MHD_Muscl_{dim}D'; return a
def c02(tier):
    J = []
    for impl in (0, 1, 2):
        for sl in ('1.0', '2.0'):
            J.append(Job(f'2d_v{impl}_s{sl[0]}', mhd(2, 4, 3, 1, 'hlld', impl, 'conserve', slope=sl))); J.append(Job(f'3d_v{impl}_s{sl[0]}', mhd(3, 3, 3, 3, 'hlld', impl, 'conserve', slope=sl)))
    return [(H_MSTUB(), J)]
CHECKS['C02'] = dict(groups=c02, functions=['SolverMHDMuscl<2|3>::godunov_unsplit_impl', 'make_boundaries', 'all functors of MHDRunFunctors2D/3D.h used by implementation versions 0, 1 and 2'],
    bounds='periodic grids 4x3 and 3x3x3 cells, slope types 1 and 2; density and pressure in [1/8,8], velocity components in [-2,2], magnetic components in [-2,2], dt in [1/1024,1/16], cell sizes in [1/4,1]; the Riemann and EMF solvers are replaced by uninterpreted functions of the reconstructed states, so the result holds for every Riemann solver',
    explain='The whole MHD time step runs symbolically on a periodic grid; the difference of the sum of every conserved variable and magnetic component before and after is decided to be zero.', assume=COMMON)
def c03(tier):
    J = []
    for impl in (0, 1, 2): J.append(Job(f'2d_v{impl}', mhd(2, 4, 3, 1, 'hlld', impl, 'divb'))); J.append(Job(f'3d_v{impl}', mhd(3, 3, 3, 3, 'hlld', impl, 'divb')))
    return [(H_MSTUB(), J)]
CHECKS['C03'] = dict(groups=c03, functions=['SolverMHDMuscl<2|3>::godunov_unsplit_impl', 'make_boundaries', 'all functors of MHDRunFunctors2D/3D.h used by implementation versions 0, 1 and 2'],
    bounds='periodic grids 4x3 and 3x3x3 cells; density and pressure in [1/8,8], velocity components in [-2,2], magnetic components in [-2,2], dt in [1/1024,1/16], cell sizes in [1/4,1]; the Riemann and EMF solvers are replaced by uninterpreted functions of the reconstructed states, so the result holds for every Riemann solver (one inductive step: any number of steps follows)',
    explain='The whole MHD time step runs symbolically; the change of the discrete divergence of every cell is decided to be zero.', assume=COMMON)

# ------------------------------------------------------------------ cell kernels
H_KERN = lambda: dict(name='kernels', src='kernels.cpp', libs='muscl')
KINDS = ('hydro2d', 'hydro3d', 'mhd2d', 'mhd3d'); DIMS = dict(hydro2d=2, hydro3d=3, mhd2d=2, mhd3d=3)
def kern(k, mode, *more, n=(2, 2, 2), bc=None, riem=None, impl=0, slope='1.0'):
    d = DIMS[k]; f = mhd if k[0] == 'm' else hydro
    return f(d, n[0], n[1], n[2] if d == 3 else 1, riem or 'llf', impl, mode, '_kind=' + k, *more, bc=bc, slope=slope)
def c10(tier):
    J = [Job(f'{k}_type{t}' + (f'_flat{f}' if f else ''), kern(k, 'slope', f'_type={t}', f'_flat={f}')) for k in KINDS for t in (0, 1, 2) for f in (0, 1, 2) if t or not f]
    J += [Job(f'{k}_type{t}_case{c}', kern(k, 'slope', f'_type={t}', f'_case={c}')) for k in KINDS for t in (1, 2) for c in (1, 2, 3, 4)]
    return [(H_KERN(), J)]
CHECKS['C10'] = dict(groups=c10, functions=['HydroBaseFunctor2D/3D::slope_unsplit_hydro_2d/3d and _scalar', 'MHDBaseFunctor2D/3D::slope_unsplit_hydro_2d/3d (all overloads)', 'slope_unsplit_mhd_2d/3d', 'compute_limited_slope<DIR_X|DIR_Y|DIR_Z>'],
    bounds='every neighbour value of every variable symbolic in [-2,2]; slope types 0, 1, 2; local plateaus as separate configurations',
    explain='Every slope function runs symbolically with unconstrained neighbour values; sign, range, antisymmetry and agreement with the minmod / monotonised central limiter are decided. Results a function does not define would show up as free symbols.', assume=COMMON)
def c11(tier):
    J = []
    for k in KINDS:
        n = (2, 2, 2) if tier == 'thorough' else (1, 1, 1)
        for fr in (1, 0): J.append(Job(f'{k}_' + ('free' if fr else 'floors'), kern(k, 'prim', f'_free={fr}', n=n)))
        if k[0] == 'm': J.append(Job(f'{k}_isothermal', kern(k, 'prim', '_free=1', '_iso=1', n=n)))
    return [(H_KERN(), J)]
CHECKS['C11'] = dict(groups=c11, functions=['HydroBaseFunctor2D/3D::computePrimitives', 'MHDBaseFunctor2D/3D::constoprim_mhd', 'ConvertToPrimitivesFunctor2D/3D', 'ConvertToPrimitivesFunctor2D/3D_MHD'],
    bounds='one cell and small arrays (all cells including ghost cells); conservative values in [-2,2] with floors in [1/32,1/2] (floors), or density and pressure in [1/8,8], velocity and field components in [-2,2] (no floor active); gamma in [1.125,2]',
    explain='The conversion runs symbolically, for arbitrary conservative values (floors) and for admissible ones (exact inversion), cell by cell and for whole arrays.', assume=COMMON)
def c12(tier):
    J = []
    for k in KINDS:
        for it in (0, 1):
            J.append(Job(f'{k}_iter{it}', kern(k, 'dt', f'_iter={it}', '_symgamma=1' if k[0] == 'h' else '_symgamma=0', n=(3, 2, 2)), seeds=[1, 2]))
            if k[0] == 'h': J.append(Job(f'{k}_iter{it}_gravity', kern(k, 'dt', f'_iter={it}', '_grav=1', 'gravity.static=true', n=(2, 2, 1)), seeds=[1, 2])); J.append(Job(f'{k}_iter{it}_gravity_cell', kern(k, 'dt', f'_iter={it}', '_grav=1', 'gravity.static=true', n=(1, 1, 1)), seeds=[1, 2], dse=6, env=dict(RT_NOITE='1')))
    return [(H_KERN(), J)]
CHECKS['C12'] = dict(groups=c12, functions=['SolverHydroMuscl<2|3>::compute_dt_local', 'ComputeDtFunctor2D/3D', 'ComputeDtGravityFunctor2D/3D', 'SolverMHDMuscl<2|3>::compute_dt_local', 'ComputeDtFunctor2D/3D_MHD', 'find_speed_info', 'SolverBase::compute_dt', 'next_iteration'],
    bounds='grids of 3x2 (3x2x2) cells, 2x2 with gravity; density and pressure in [1/8,8], velocity and field components in [-2,2], cell sizes in [1/4,1], CFL number in [1/8,1], acceleration components in magnitude in [1/8,2]; even and odd iteration (both solution arrays)',
    explain='One iteration of the real solver runs symbolically and the time step it chose is compared with the CFL bound of every cell and decided to be the largest value that satisfies it.', assume=COMMON)
def c17(tier):
    J = []
    for k in ('hydro2d', 'hydro3d'):
        for o in ('', '_zero=1'): J.append(Job(f'{k}_kernel{o}', kern(k, 'grav', '_what=kernel', *([o] if o else []), n=(1, 1, 1))))
        for impl in (0, 1):
            for w in ('uniform', 'zero'): J.append(Job(f'{k}_v{impl}_{w}', kern(k, 'grav', '_what=' + w, 'gravity.static=true', n=(3, 3, 2) if w == 'zero' else (2, 2, 2), impl=impl)))
        J.append(Job(f'{k}_impl', kern(k, 'grav', '_what=impl', 'gravity.static=true', n=(3, 3, 3))))
    return [(H_KERN(), J)]
CHECKS['C17'] = dict(groups=c17, functions=['GravitySourceTermFunctor2D/3D', 'SolverHydroMuscl<2|3>::godunov_unsplit_impl with gravity (implementation versions 0 and 1)', 'the gravity predictor of ComputeAndStoreFluxesFunctor and ComputeTraceAndFluxes_Functor'],
    bounds='kernel: arrays of one interior cell with ghosts, density in [1/8,8], other conservative values in [-4,4], acceleration in [-2,2], dt in [1/1024,1]; whole steps: 2x2(x2) uniform gas in a uniform field, 3x3(x2) arbitrary gas in a zero field, 3x3(x3) arbitrary gas and field (versions 0 and 1 compared)',
    explain='The gravity source kernel and whole steps with gravity run symbolically; momentum, energy and density changes are decided against the time-centred formula, and a zero field against a run without gravity.', assume=COMMON)

def c27(tier):
    J = []
    for d in (2, 3):
        for impl in (0, 1):
            for sl in ('0.0', '1.0', '2.0'): J.append(Job(f'hydro{d}d_v{impl}_s{sl[0]}', hydro(d, 4 if d == 2 else 3, 3, 3 if d == 3 else 1, 'hllc', impl, 'ref', '_symgeo=1', slope=sl)))
            J.append(Job(f'hydro{d}d_v{impl}_gravity', hydro(d, 4 if d == 2 else 3, 3, 3 if d == 3 else 1, 'hllc', impl, 'ref', '_symgeo=1', '_grav=1', 'gravity.static=true')))
    return [(H_STUB(), J)]
CHECKS['C27'] = dict(groups=c27, functions=['SolverHydroMuscl<2|3>::godunov_unsplit_impl', 'ConvertToPrimitivesFunctor2D/3D', 'ComputeAndStoreFluxesFunctor2D/3D', 'ComputeSlopesFunctor2D/3D', 'ComputeTraceAndFluxes_Functor2D/3D', 'UpdateFunctor2D/3D', 'UpdateDirFunctor2D/3D', 'GravitySourceTermFunctor2D/3D', 'trace_unsplit_2d/3d_along_dir'],
    bounds='periodic 4x3 and 3x3x3 cells, slope types 0, 1, 2, with and without gravity; ' + BOX + '; cell sizes in [1/4,1]; the Riemann solver is an uninterpreted function of the two face states that treats the transverse directions alike',
    explain='One time step of the real solver runs symbolically and every updated value is decided equal to a reference step written from the definition of the scheme.', assume=COMMON)

# ------------------------------------------------------------------ boundaries
H_BND = lambda: dict(name='bounds', src='bounds.cpp', libs='muscl')
OA81 = [sum(x * 3 ** f for f, x in enumerate((a, b, c, d, (a + b + c + d) % 3, (a + 2 * b + d) % 3))) for a in range(3) for b in range(3) for c in range(3) for d in range(3)]
def c14(tier):
    J = []; T = tier == 'thorough'
    for m in (0, 1):
        f = mhd if m else hydro
        for g, n in enumerate(((4, 3), (3, 5)) if T else ((4, 3),)): J.append(Job(f'{"mhd" if m else "hydro"}2d_g{g}', f(2, n[0], n[1], 1, 'llf', 0, 'bc', '_dim=2', f'_mhd={m}')))
        # 3D: all 729 combinations (thorough) or 81 that contain every combination of types on any three faces
        for part in range(8):
            L = range(part, 729, 8) if T else OA81[part::8]
            J.append(Job(f'{"mhd" if m else "hydro"}3d_p{part}', f(3, 3, 4, 5 if not m else 3, 'llf', 0, 'bc', '_dim=3', f'_mhd={m}', '_list=' + ','.join(map(str, L)))))
    return [(H_BND(), J)]
CHECKS['C14'] = dict(groups=c14, functions=['SolverHydroMuscl<2|3>::make_boundaries', 'SolverMHDMuscl<2|3>::make_boundaries', 'SolverBase::make_boundaries_serial', 'SolverBase::make_boundary', 'MakeBoundariesFunctor2D/3D', 'MakeBoundariesFunctor2D/3D_MHD', 'HydroParams::setup'],
    bounds='2D: all 81 combinations of boundary types on 4x3 cells (3x5 thorough); 3D: 81 of the 729 combinations, containing every combination on any three faces (all 729 in thorough), on 3x4x5 (MHD 3x4x3) cells; every array value, ghost cells included, symbolic in [-2,2]; ghost widths 2 (hydro) and 3 (MHD)',
    explain='The real boundary filling runs with every cell value (stale ghost values included) symbolic and each cell of the array is decided equal to the value its boundary types prescribe.', assume=COMMON)

H_BMPI = lambda: dict(name='bounds_mpi', src='bounds.cpp', libs='muscl', kind='symmpi')
def c15(tier):
    J = []; T = tier == 'thorough'
    for m in (0, 1):
        f = mhd if m else hydro; t = 'mhd' if m else 'hydro'; g = 3 if m else 2
        for (a, b) in ((2, 1), (1, 2), (2, 2), (3, 1)) + (((1, 1), (2, 3), (1, 4)) if T else ()):
            J.append(Job(f'{t}2d_{a}x{b}', f(2, g, g + 1, 1, 'llf', 0, 'bc', '_dim=2', f'_mhd={m}', f'mpi.mx={a}', f'mpi.my={b}', '_list=' + ','.join(map(str, range(0, 81, 1 if T else 4)))), np=a * b, env=dict(RT_HASH='1')))
        for (a, b, c) in ((2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 2)) + (((2, 1, 3), (1, 3, 2), (2, 2, 1)) if T else ()):
            J.append(Job(f'{t}3d_{a}x{b}x{c}', f(3, g, g + 1, g, 'llf', 0, 'bc', '_dim=3', f'_mhd={m}', f'mpi.mx={a}', f'mpi.my={b}', f'mpi.mz={c}', '_list=' + ','.join(map(str, OA81[::3 if T else 11]))), np=a * b * c, env=dict(RT_HASH='1')))
    return [(H_BMPI(), J)]
CHECKS['C15'] = dict(groups=c15, functions=['SolverHydroMuscl<2|3>::make_boundaries', 'SolverMHDMuscl<2|3>::make_boundaries', 'SolverBase::make_boundaries_mpi', 'copy_boundaries', 'transfert_boundaries_2d/3d', 'copy_boundaries_back', 'CopyDataArray_To_BorderBuf', 'CopyBorderBuf_To_DataArray', 'MakeBoundariesFunctor2D/3D(_MHD)', 'HydroParams::setup_mpi', 'MpiCommCart', 'MpiComm::sendrecv'],
    bounds='process grids 2x1, 1x2, 2x2, 3x1, 2x1x1, 1x2x1, 1x1x2, 2x2x2 (more in thorough); 2 to 4 cells per process and direction; 21 (2D) and 8 (3D) combinations of boundary types per process grid in quick; every array value symbolic, stale ghost values included; ghost widths 2 and 3',
    explain='The MPI build runs under mpirun; every process fills a symbolic subdomain and exchanges it with the real communication code, process 0 collects all arrays and decides every cell equal to the cell of the undivided domain.', assume=COMMON + ['OpenMPI delivers messages as sent; one message schedule is followed per run.'])

H_LOOP = lambda: dict(name='timeloop', src='timeloop.cpp', libs='muscl', ld='-Wl,--allow-multiple-definition')
def c13(tier):
    J = []; T = tier == 'thorough'
    for m in (0, 1):
        f = mhd if m else hydro
        for te, n, no in (('1.0', 5, 3), ('1.0', 4, 1), ('0.375', 5, 10), ('1.0', 3, -1), ('2.0', 3, 0), ('1.0', 0, 2), ('1.0', 1000, 2)):
            if m and (n == 1000 or no == 0): continue
            J.append(Job(f'{"mhd" if m else "hydro"}_t{te}_n{n}_o{no}'.replace('-', 'm').replace('.', 'p'), f(2, 3, 3, 1, 'hll', 0, 'loop', 'run.tEnd=' + te, 'run.tend=' + te, f'run.nstepmax={n}', f'run.noutput={no}', 'output.hdf5_enabled=true', '_xdmf=1'), seeds=[1, 2, 3] if n < 1000 else [1, 2], dse=(60 if T or not m else 25) if n < 1000 else 6, env=dict(RT_NOITE='1')))
    return [(H_LOOP(), J)]
CHECKS['C13'] = dict(groups=c13, functions=['main', 'SolverBase::compute_dt', 'SolverBase::next_iteration', 'SolverBase::finished', 'SolverBase::save_solution', 'SolverBase::should_save_solution', 'SolverHydroMuscl<2>::next_iteration_impl, godunov_unsplit, save_solution_impl', 'SolverMHDMuscl<2>::next_iteration_impl, godunov_unsplit, save_solution_impl', 'HydroParams::setup'],
    bounds='runs of at most 5 steps (one configuration runs to the end time) with every proposed time step symbolic in [1/64,1]; end times 0.375, 1, 2; step limits 0, 3, 4, 5, 1000; requested outputs -1, 0, 1, 2, 3, 10; paths (orders of steps, outputs and the end) explored by negating branch conditions',
    explain='The main program itself runs with symbolic time steps; recorded updates and outputs are compared, on every explored path, with what the parameters prescribe.', assume=COMMON + ['The time-step computation and the hydrodynamic update are replaced by recorders; the output writer is replaced by a recorder; a time strictly below the end time is at least 1e-6 below it.'])

H_INIT = lambda: dict(name='init', src='init.cpp', libs='muscl')
def c19(tier):
    T = tier == 'thorough'; J = []
    def job(prob, d, m, *more, name='', n=(1, 1, 1), gw=0, ite=False, dse=40, **o):
        f = mhd if m else hydro
        J.append(Job(f'{prob}{name}_{"mhd" if m else "hydro"}{d}d_{n[0]}{n[1]}{n[2]}g{gw}', f(d, 3, 3, 3 if d == 3 else 1, 'hll', 0, 'init', f'_prob={prob}', f'_dim={d}', f'_mhd={m}', f'_nx={n[0]}', f'_ny={n[1]}', f'_nz={n[2]}', f'_gw={gw}', *more, gamma='1.5'),
            **({} if ite else dict(env=dict(RT_NOITE='1'), dse=dse)), seeds=o.pop('seeds', [1, 2, 3]), **o))
    def blocks(d): return [((1, 1, 1), 0), ((2, 1, 1), 1), ((1, 2, 1), 2)] + ([((1, 1, 2), 1)] if d == 3 else []) + ([((2, 2, 1), 1), ((3, 1, 1), 0)] if T else [])
    for d in (2, 3):
        for n, g in blocks(d):
            for m in (0, 1):
                for s in (0, 1): job('implode', d, m, f'_shape={s}', name=f'_shape{s}', n=n, gw=g)
                job('blast', d, m, n=n, gw=g)
                for p in ('rand', 'rob', 'sine'): job('kh', d, m, f'_pert={p}', name='_' + p, n=n, gw=g)
            job('gresho', d, 0, n=n, gw=g); job('rotor', d, 1, n=n, gw=g); None
            for a in (0, 1):
                for p in ('rt', 'bubble'): job(p, d, 0, f'_grav={a}', name=f'_g{a}', n=n, gw=g)
        job('disk', d, 0, n=(1, 1, 1), gw=d - 1, dse=30); job('disk', d, 0, '_centre=1', name='_centre', n=(1, 1, 1), gw=0)
        job('ot', d, 1, n=(3, 3, 3 if d == 3 else 1), gw=1, ite=True); job('loop', d, 1, n=(5, 5, 5 if d == 3 else 1), gw=1, ite=True, seeds=[1, 2, 3, 4, 5])
    for n, g in blocks(2): job('quadrant', 2, 0, n=n, gw=g); job('vortex', 2, 0, n=n, gw=g)
    job('wave', 3, 1, n=(4, 4, 4), gw=1, ite=True)
    return [(H_INIT(), J)]
CHECKS['C19'] = dict(groups=c19, functions=['InitImplodeFunctor2D/3D(_MHD)', 'InitBlastFunctor2D/3D(_MHD)', 'InitKelvinHelmholtzFunctor2D/3D(_MHD)', 'InitGreshoVortexFunctor2D/3D', 'InitFourQuadrantFunctor2D', 'InitIsentropicVortexFunctor2D', 'RayleighTaylorInstabilityFunctor2D/3D', 'RisingBubbleFunctor2D/3D', 'InitDiskFunctor2D/3D', 'InitOrszagTangFunctor2D/3D', 'InitRotorFunctor2D/3D_MHD', 'InitFieldLoopFunctor2D/3D_MHD', 'InitWaveFunctor3D_MHD'],
    bounds='blocks of one and two cells (up to 5x5x5 where neighbouring faces matter) at any position of the mesh: mesh origin in [-1,1], cell sizes in [1/64,1/2], adiabatic index in [1.125,2], densities and pressures in [1/8,8], velocities and fields in [-2,2], all other real parameters of the problem symbolic; regions explored by negating branch conditions',
    explain='Every initial-condition functor runs symbolically; density, momentum, face-centred field and the pressure contained in the total energy are decided equal to what the problem prescribes for the region of the cell, and the face-centred field to be free of divergence.', assume=COMMON + ['The implosion problem is given the same magnetic field inside and outside (a jump of the field across its oblique interface is not an admissible parameter).', 'For the random perturbation the numbers drawn are the actual ones of the first cells; bounds on the perturbation are decided for every amplitude.'])

H_EQ = lambda: dict(name='equations', src='equations.cpp', libs='base')
def c20(tier):
    J = []
    for d in (2, 3):
        for m in ('thermo', 'flux'): J.append(Job(f'{m}{d}d', [f'_dim={d}', f'_mode={m}']))
        for k in range(d): J.append(Job(f'eigen{d}d_{"xyz"[k]}', [f'_dim={d}', '_mode=eigen', f'_dir={k}']))
    return [(H_EQ(), J)]
CHECKS['C20'] = dict(groups=c20, functions=['EulerEquations<2|3>::convert_to_primitive', 'compute_pressure', 'compute_speed_of_sound', 'flux_x/y/z', 'flux_visc_x/y/z', 'cons_to_charac<dir>', 'charac_to_cons<dir>'],
    bounds='one state: density in [1/8,8], momenta, energy and pressure in [-8,8] (eigenvectors: velocity in [-2,2], speed of sound in [1/8,8]), adiabatic index in [17/16,3], velocity gradients in [-2,2], viscosity in [0,2]; the arithmetic is over the reals',
    explain='The functions of EulerEquations run symbolically and their results are decided equal to the conservation laws: conversions, inviscid and viscous fluxes, speed of sound; the characteristic transforms are decided to be mutually inverse and their columns to be eigenvectors of the flux Jacobian with eigenvalues u-c, u, u+c.')

# ------------------------------------------------------------------ spectral difference solver
def H_SDM(d, n, var=''): return dict(name=f'sdm{d}d_{n}{var.lower()}', src='sdm.cpp', libs='sdm', defs=f'-DDIM={d} -DORD={n}' + (f' -D{var}' if var else ''))
def sdm(d, n, nc, mode, *more, riem='hllc', bc=None, gamma='1.5'):
    return [f'run.solver_name=Hydro_SDM_{d}D_degree{n}', f'mesh.nx={nc[0]}', f'mesh.ny={nc[1]}', f'mesh.nz={nc[2] if d == 3 else 1}', f'hydro.riemann={riem}', 'hydro.problem=none', f'hydro.gamma0={gamma}', f'_mode={mode}'] + (per(d) if bc is None else bc) + list(more)
INTEG = dict(fe=[], rk2=['sdm.ssprk2=true'], rk3=['sdm.ssprk3=true'], rk54=['sdm.ssprk54=true'])
def c23(tier):
    return [(H_SDM(d, 2, 'RKSTUB'), [Job(f'sdm{d}d_{i}', sdm(d, 2, (3, 2, 2), 'rk', f'_integ={i}', *o)) for i, o in INTEG.items()]) for d in (2, 3)]
CHECKS['C23'] = dict(groups=c23, functions=['SolverHydroSDM<2|3,2>::time_integration_impl', 'time_int_forward_euler/ssprk2/ssprk3/ssprk54', 'SDM_Update_RK_Functor', 'make_boundaries'],
    bounds='periodic grids of 3x2 and 3x2x2 cells, 4 and 8 solution points per cell; values of the solution and of every evaluation of the right-hand side in [-2,2], time step in [1/64,1/2]; the arithmetic is over the reals',
    explain='The right-hand side is replaced by an arbitrary function that returns fresh unknowns. The input of every evaluation and the result of the step are decided equal to the published Shu-Osher form of the integrator, whose order conditions are checked as well, and the ghost cells are decided current at every evaluation.')
SDMN = lambda tier: [(2, 1), (2, 2), (2, 3), (2, 4), (3, 2)] + ([(3, 1), (3, 3)] if tier == 'thorough' else [])
def c21(tier): return [(H_SDM(d, n), [Job(f'poly{d}d_{n}', sdm(d, n, (1, 1, 1), 'poly'))] + ([Job(f'avg{d}d_{n}', sdm(d, n, (1, 2, 1), 'avg', 'sdm.limiter_enabled=true'))])) for d, n in SDMN(tier)]
CHECKS['C21'] = dict(groups=c21, functions=['Interpolate_At_FluxPoints_Functor', 'Interpolate_At_SolutionPoints_Functor (derivative, solution, negative and plain variants)', 'Average_Conservative_Variables_Functor', 'Average_Gradient_Functor', 'SDM_Geometry'],
    bounds='orders N = 1..4 in 2D and N = 2 in 3D (thorough: also 3D N = 1, 3), every direction, one cell; all polynomials of degree N-1 (solution) or N (flux) in each coordinate with coefficients in [-1,1], cell sizes in [1/4,1]; the arithmetic is over the reals',
    explain='Coefficients of the polynomials are symbolic; the functors run on their point values and the results are decided equal to the polynomial, its derivative divided by the cell size, its average and the average of its gradient, with points, weights and Lagrange polynomials computed independently in the harness.')
def c22(tier):
    G = []
    for d, n in SDMN(tier):
        nc = (3, 2, 2) if d == 3 else (3, 3)
        G.append((H_SDM(d, n, 'STUB'), [Job(f'cons{d}d_{n}_{i}', sdm(d, n, nc, 'cons', '_narrow=1', *INTEG[i]), opts=['--uf', '1000']) for i in (['fe', 'rk2'] if n < 3 else ['fe'])]
            + ([Job(f'viscons{d}d_{n}', sdm(d, n, nc, 'cons', '_narrow=1', 'hydro.mu=0.25'), opts=['--uf', '1000'])] +
              [Job(f'limcons{d}d_{n}_{i}', sdm(d, n, nc, 'cons', '_narrow=1', 'sdm.limiter_enabled=true', 'sdm.positivity_enabled=true', 'sdm.M_TVB=0', *INTEG[i]), opts=['--uf', '1000'], env=dict(RT_NOITE='1'), dse=1) for i in ('fe', 'rk2')] if n == 2 else [])))
    return G
CHECKS['C22'] = dict(groups=c22, functions=['SolverHydroSDM<2|3,N>::time_integration_impl', 'compute_fluxes_divergence', 'compute_invicid_fluxes_divergence_per_dir', 'compute_viscous_fluxes_divergence_per_dir', 'ComputeFluxAtFluxPoints_Functor', 'Interpolate_At_SolutionPoints_Functor', 'Apply_limiter_Functor', 'Apply_positivity_Functor_v2', 'SDM_Update_RK_Functor', 'make_boundaries'],
    bounds='periodic 3x3 and 3x2x2 grids, N = 1..4 in 2D and N = 2 in 3D (thorough: also 3D N = 1, 3); forward Euler, SSP-RK2 for N <= 2; density and pressure in [1,5/4], velocities in [-1/4,1/4] at every solution point, cell sizes in [1/4,1]; the Riemann solver is an arbitrary function with values up to 1000 in magnitude; the arithmetic is over the reals. With the limiter and the positivity correction the claim is decided on explored paths',
    explain='A whole step runs with every solution point value, the time step and the cell sizes symbolic and the Riemann solver uninterpreted; the quadrature of each conserved variable over the domain is decided unchanged.')
def c24(tier):
    return [(H_SDM(d, n), ([Job(f'lim{d}d_{n}_{t}_{m}', sdm(d, n, (1, 1, 1), 'lim', 'sdm.limiter_enabled=true', f'sdm.M_TVB={t}', f'_tvb={t}', f'_mean={m}'), dse=8, env=dict(RT_NOITE='1')) for t, m in (('0', 0), ('0', 1), ('0.25', 0), ('0.25', 2))] if n > 1 else []) +
        [Job(f'pos{d}d_{n}_{p}', sdm(d, n, (1, 1, 1), 'pos', f'_pos={p}', 'sdm.positivity_enabled=true', 'hydro.smallr=0.0625'), dse=8 if d == 2 and n < 3 else 4 if n < 4 else 1, opts=['--le', '1500' if n < 3 else '500'], env=dict(RT_NOITE='1')) for p in (1, 2, 3) if p < 3 or (d, n) == (2, 2)]) for d, n in SDMN(tier)]
CHECKS['C24'] = dict(groups=c24, functions=['Average_Conservative_Variables_Functor', 'Average_Gradient_Functor', 'Apply_limiter_Functor', 'Apply_positivity_Functor_v2', 'EulerEquations::cons_to_charac', 'charac_to_cons', 'convert_to_primitive', 'compute_speed_of_sound'],
    bounds='one cell and its face neighbours, N = 1..4 in 2D and N = 2 in 3D (thorough: also 3D N = 1, 3); three fixed average states, deviations of the point values and of the neighbour averages in [-1/2,1/2], TVB constant 0 and 1/4; positivity: average density 1 with deviations up to 3/2 (for N > 2 and 3D uniform across x lines), average energy 1/2 with deviations up to 1; up to 8 explored paths per configuration; the arithmetic is over the reals',
    explain='Point values are symbolic around fixed averages; every explored path is decided over all values that follow it. The limited cell is decided equal to an independent formulation (wave strengths, minmod, linear reconstruction), all averages are decided unchanged, the density at the flux points is decided no lower than the floor after the density correction, and for linear profiles of order 2 the pressure is decided not negative after the pressure correction.')
def c28(tier):
    G = []
    for d, n in SDMN(tier):
        nc = (3, 3, 3) if d == 3 else (3, 3)
        G.append((H_SDM(d, n, 'STUB'), [Job(f'ref{d}d_{n}', sdm(d, n, (3, 2, 2), 'ref', '_narrow=1'), opts=['--uf', '1000'])] + ([Job(f'visc{d}d_{n}', sdm(d, n, nc, 'ref', '_visc=1', '_narrow=1', 'hydro.mu=0.25'), opts=['--uf', '1000'])] if n > 1 else [])))
        G.append((H_SDM(d, n), [*([Job(f'dt{d}d_{n}', sdm(d, n, (2, 1, 1), 'dt'))] if n < 4 or tier == 'thorough' else []), Job(f'free{d}d_{n}', sdm(d, n, (2, 2, 2), 'free')),
            Job(f'bc{d}d_{n}', sdm(d, n, (2, 1, 2), 'bc', '_list=' + ','.join(map(str, [0, 364, 728, 1 + 9 * 2 + 81, 2 + 18])) if d == 3 else '_list=0,40,80,1,3,9,27,11'))]))
    return G
CHECKS['C28'] = dict(groups=c28, functions=['SolverHydroSDM<2|3,N>::time_int_forward_euler', 'compute_fluxes_divergence', 'compute_velocity_gradients', 'compute_viscous_fluxes_divergence_per_dir', 'ComputeFluxAtFluxPoints_Functor', 'ComputeViscousFluxAtFluxPoints_Functor', 'Average_component_at_cell_borders_Functor', 'ComputeDt_Functor_2d/3d', 'MakeBoundariesFunctor_SDM', 'compute_dt_local'],
    bounds='N = 1..4 in 2D and N = 2 in 3D (thorough: also 3D N = 1, 3); one forward Euler step on periodic 3x2, 3x2x2, 3x3 and 3x3x3 grids (viscous terms: the cell away from the borders), density and pressure in [1,5/4], velocities in [-1/4,1/4], cell sizes in [1/4,1], the Riemann solver an arbitrary function of its two states; uniform flow with the HLLC solver on 2x2x2 cells; time step on 2x1(x1) cells with density and pressure in [1/8,8]; boundaries: 8 (2D) and 5 (3D) combinations of types with arbitrary values; the arithmetic is over the reals',
    explain='The step of the real solver is decided equal to the definition of the spectral difference scheme written independently in the harness (interpolation to flux points, one interface flux per interior face, exact derivative of the flux polynomial, Newtonian stress with border-averaged velocities and gradients); time step, uniform flow and ghost cells are decided against their definitions.')

H_IO = lambda: dict(name='io', src='io.cpp', libs='muscl')
H_IOMPI = lambda: dict(name='io_mpi', src='io.cpp', libs='muscl', kind='symmpi')
MPIIO = dict(RT_HASH='1', OMPI_MCA_io='romio321')      # OpenMPI 4.1.6's own MPI-IO (ompio) loses collective writes now and then; ROMIO does not
def c16(tier):
    J = []; M = []; T = tier == 'thorough'; GH = (('', []), ('_ghost', ['output.ghostIncluded=true']))
    for m in (0, 1):
        f = mhd if m else hydro; t = 'mhd' if m else 'hydro'; g = 3 if m else 2
        for d in (2, 3):
            base = lambda nm, n, *more: (f'{t}{d}d_{nm}', f(d, *n, 'llf', 0, 'io', f'_dim={d}', f'_mhd={m}', 'output.hdf5_enabled=true', 'output.vtk_enabled=false', *more))
            sz = (g + 1, g + 2, g if d == 3 else 1); sizes = [sz] + ([(g, g + 3, g + 1 if d == 3 else 1)] if T else [])
            for q, n in enumerate(sizes):
                for gn, ga in GH:
                    for z in (0, 6):
                        J.append(Job(*base(f'n{q}{gn}_z{z}', n, *ga, f'output.outputHdf5CompressionLevel={z}', f'_iter={int(z > 0)}', f'_number={z + 1}', f'_reset={int(z == 0)}')))
                J.append(Job(*base(f'n{q}_up', n, 'output.ghostIncluded=true', '_up=1')))
            grids = ((2, 1, 1), (1, 2, 1), (2, 2, 1)) if d == 2 else ((2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 2))
            for p in grids:
                pa = [f'mpi.mx={p[0]}', f'mpi.my={p[1]}'] + ([f'mpi.mz={p[2]}'] if d == 3 else [])
                for gn, ga in GH + (('_allghost', ['output.allghostIncluded=true']),):
                    M.append(Job(*base('p' + 'x'.join(map(str, p[:d])) + gn, sz, *ga, *pa, f'_iter={p[0] % 2}'), np=p[0] * p[1] * p[2], env=MPIIO))
                if T or p[0] == 2: M.append(Job(*base('p' + 'x'.join(map(str, p[:d])) + '_up', sz, 'output.allghostIncluded=true', '_up=1', *pa), np=p[0] * p[1] * p[2], env=MPIIO))
    return [(H_IO(), J), (H_IOMPI(), M)]
CHECKS['C16'] = dict(groups=c16, functions=['SolverBase::save_solution', 'SolverHydroMuscl<2|3>::save_solution_impl, init_restart', 'SolverMHDMuscl<2|3>::save_solution_impl, init_restart', 'IO_ReadWrite::save_data, load_data', 'Save_HDF5::save', 'Save_HDF5_mpi::save', 'Load_HDF5::load', 'Load_HDF5_mpi::load', 'SolverBase::init_io'],
    bounds='one grid of 2 to 5 cells per direction per solver and dimension (two in thorough); with and without ghost cells in the file; compression levels 0 and 6; saved from either state array; restart at the same resolution, with time reset, and with doubled resolution; process grids 2x1, 1x2, 2x2, 2x1x1, 1x2x1, 1x1x2, 2x2x2 with no, outer and all ghost cells in one reassembled file',
    explain='Every value of the saved arrays and the time are symbolic and travel through the real HDF5 writer, a real file and the real reader; the contents of the file and the restored arrays are decided equal to what was saved. The MPI build is run under mpirun with parallel HDF5.', assume=COMMON + ['The HDF5 library stores and returns the bytes it is given; MPI-IO is the ROMIO of OpenMPI (its default ompio loses collective writes now and then in this sandbox, whatever the program).'])

import paramfile
CHECKS['C25'] = dict(custom=paramfile.run, technique='bounded model checking: clang IR of the parser and accessors rendered as C (engine/ir2c.cpp) and decided by CBMC (bit-precise, unwinding, bounds and pointer assertions) for every text and query of the stated shapes; counterexamples are replayed on the natively compiled parser under AddressSanitizer',
    functions=['ini_parse', 'ini_parse_buffer', 'rstrip', 'lskip', 'find_char_or_comment', 'strncpy0', 'INIReader::INIReader (buffer)', 'INIReader::valueHandler', 'INIReader::makeKey', 'INIReader::getString', 'INIReader::setString', 'INIReader::getInteger', 'ConfigMap::getFloat', 'ConfigMap::getBool', 'ConfigMap::setBool'],
    bounds='texts: one line of 8 arbitrary bytes (10 to 13 in thorough); a line of 6 (9) arbitrary bytes after a key and before another one; 5 (8) bytes after a section and a key and before an indented line; after a blank line; two lines of 4 and 3 (6 and 5; three lines of 3); continuation lines; section and key names at the truncation limit; any text of at most 4 bytes (6) including line breaks; section and key names of 48 characters and one more arbitrary one. Any results of the handler. Read from a file (fopen/fgets/fclose replaced) and from a buffer. NUL bytes and locales other than C excluded. Except in the jobs on full names the constants MAX_LINE, MAX_SECTION and MAX_NAME are scaled down with the text. Accessors: two entries (three in thorough for getString), sections and keys of at most 2 characters, values of at most 3 (6 with one entry), set by the parser or by setString; std::string and std::map are stand-ins with the standard meaning (at most 3 entries); strtol/strtof are modelled for decimal, hexadecimal and fractional numbers without exponent.',
    explain='The calls the parser makes and its result are compared with an independent reading of the text (checks/ini/ref.h) for every value of the symbolic bytes; also memory safety of the parser (bounds and pointer checks) and that all loops end within the unwinding bound.',
    assume=['clang -O1 IR is translated faithfully to C by engine/ir2c.cpp', 'CBMC 6.11 decides the C program correctly', 'the stand-ins of checks/ini/inc behave like the standard library within their size'])

NOT_APPLICABLE = dict(C26='the MOOD sources do not compile at this commit (they are excluded from the build and refer to removed interfaces), so there is no code to encode')
import race
CHECKS['C18'] = dict(custom=race.run, wall=dict(quick=650, thorough=4000),
    technique='CBMC (bit-precise bounded model checking, SAT) on C generated from the LLVM IR of the real solver code; two arbitrary work items of every kernel',
    explain='Every kernel that a solver launches (found by CBMC itself in a first query per solver) is executed symbolically twice: once for one arbitrary work item, asserting that every array it touches is allocated and every index is inside the array; once for two arbitrary distinct work items, asserting that a location written by one is not touched by the other, except that both may update it atomically, and that no work item stores to global or static data. Two work items suffice: a conflict among many is a conflict of two. Floating-point values are unknown (any value), so every branch on them is explored both ways. A counterexample is replayed natively with the same sizes and work items before it is reported.',
    bounds='hydro and MHD: each grid size any value from the ghost width to 100 cells (3D boundary kernels: pairs on a 5x4x3 grid), any work items, any of the boundary types on each side, gravity on or off, both iteration parities, all implementation versions, 2D and 3D. SDM: order 2 in 2D on a 5x4 grid (thorough: also order 3 in 2D and order 2 in 3D), viscous terms, limiter and positivity on or off, all four integrators; SDM boundary kernels are not covered. At most 14 iterations per loop (40 SDM) with unwinding assertions, so no path is cut.',
    functions=[], assume=['Kokkos is replaced by a stand-in (checks/race/inc/Kokkos_Core.hpp) whose kernels run two work items and whose arrays record accesses; reductions are Kokkos reducers and trusted to combine correctly.', 'Atomic additions of floating-point numbers in different orders may differ by rounding; this is allowed.', 'Restart files and MPI buffers are not encoded.', 'Trusted: clang 18, engine/ir2c.cpp, CBMC 6.11, CaDiCaL.'])
