"""Planted bugs: id, property, edits (file, old, new[, occurrence]), what is needed to see them, demonstration."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [V, V + '/checks']
from checks import hydro, mhd, kern, rjob, sdm, INTEG
M = 'src/muscl/'; SH = 'src/shared/'
HS_ = lambda args, seeds=(1, 2, 3): [('hydro_step.cpp', args, seeds)]
MS_ = lambda args, seeds=(1, 2, 3): [('mhd_step.cpp', args, seeds)]
K_ = lambda args, seeds=(1, 2, 3, 4, 5, 6): [('kernels.cpp', args, seeds)]
R_ = lambda jobs, seeds=range(1, 41): [('riemann.cpp', [j.args for j in jobs], seeds)]
SD_ = lambda d, n, args, seeds=(1, 2, 3), var='': [('sdm.cpp', args, seeds, f'-DDIM={d} -DORD={n}' + (f' -D{var}' if var else ''))]
BUGS = []
def bug(id, prop, edits, needs, breaks, demo, **kw): BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

bug('b01_upper_y_face', 'C01', [(M + 'HydroRunFunctors3D.h', '        Udata(i, j, k, IW) -= FluxData(i, j + 1, k, IW);', '        if (j + 1 < jsize - ghostWidth)\n          Udata(i, j, k, IW) -= FluxData(i, j + 1, k, IW);')],
    'implementation version 1 in 3D, z momentum carried through the upper y boundary of the domain', 'the z momentum that leaves the last row of cells through the upper y face is not subtracted, so the total z momentum drifts',
    HS_([hydro(3, 4, 4, 4, 'hllc', 1, 'conserve'), hydro(3, 4, 4, 4, 'hllc', 0, 'conserve')]))
bug('b02_bz_flux_y', 'C02', [(M + 'MHDRunFunctors2D.h', '      get_state(FluxData_y, i, j + 1, flux);\n      udata[ID] -= flux[ID] * dtdy;\n      udata[IP] -= flux[IP] * dtdy;\n      udata[IU] -= flux[IV] * dtdy; //\n      udata[IV] -= flux[IU] * dtdy; //\n      udata[IW] -= flux[IW] * dtdy;\n      // udata[IA] -=  flux[IA]*dtdy;\n      // udata[IB] -=  flux[IB]*dtdy;\n      udata[IC] -= flux[IC] * dtdy;',
      '      get_state(FluxData_y, i, j + 1, flux);\n      udata[ID] -= flux[ID] * dtdy;\n      udata[IP] -= flux[IP] * dtdy;\n      udata[IU] -= flux[IV] * dtdy; //\n      udata[IV] -= flux[IU] * dtdy; //\n      udata[IW] -= flux[IW] * dtdy;\n      // udata[IA] -=  flux[IA]*dtdy;\n      // udata[IB] -=  flux[IB]*dtdy;\n      udata[IC] -= flux[IC] * dtdx;')],
    '2D MHD, implementation version 0, unequal cell sizes and an out-of-plane field', 'the out-of-plane field that leaves a cell through its upper y face is scaled with the wrong cell size, so its sum is not conserved',
    MS_([mhd(2, 5, 4, 1, 'hlld', i, 'conserve') for i in (0, 1, 2)]))
bug('b03_curl_cell_size', 'C03', [(M + 'MHDRunFunctors3D.h', '      udata[IB] += (Emf(i, j, k + 1, I_EMFX) - Emf(i, j, k, I_EMFX)) * dtdz;', '      udata[IB] += (Emf(i, j, k + 1, I_EMFX) - Emf(i, j, k, I_EMFX)) * dtdy;')],
    '3D MHD, implementation version 0, cells with different y and z sizes', 'the induction update of By uses the y cell size for a z difference, so magnetic divergence grows',
    MS_([mhd(3, 4, 3, 4, 'hlld', i, 'divb') for i in (0, 1, 2)]))
bug('b04_emf_doubly_supersonic', 'C05', [(SH + 'RiemannSolvers_MHD.h', '  E += (SB_neg * ST_neg) * tmpE;', '  E += (SB_neg * ST_neg * (1 - SL_neg * SR_neg)) * tmpE;')],
    'HLLD EMF with flow faster than the fast wave in both negative directions', 'the EMF of a corner whose flow is supersonic towards -x and -y is zero instead of that of the upwind state, even when all four states are the same',
    [('riemann.cpp', [rjob('emf', 'hlld', 'consist', f'_emfdir={d}').args for d in range(3)], range(1, 200))], also=['C06', 'C04'])
bug('b05_llf_energy_3d', 'C06', [(SH + 'RiemannSolvers.h', '    uright[IP] += HALF_F * qright[ID] * qright[IW] * qright[IW];', '    uright[IP] += HALF_F * qright[ID] * qleft[IW] * qright[IW];', 1)],
    '3D local Lax-Friedrichs, jump of the z velocity', 'the total energy of the right state uses the velocity of the left state',
    R_([rjob('hydro3d', 'llf', m) for m in ('formula', 'mirror')]), also=['C07'])

bug('b06_hll_low_mach', 'C05', [(SH + 'RiemannSolvers_MHD.h', 'if (fabs(estar) <= 1e-8 * a * a)', 'if (fabs(estar) <= 1e-8 * a)', 2)],
    'HLLD with a negative normal field and a right star state far from degenerate', 'x', R_([rjob('mhd', 'hlld', 'formula')]))
BUGS.pop()
bug('b07_minmod_sign', 'C10', [(M + 'HydroBaseFunctor3D.h', '    dsgn = (dcen >= ZERO_F) ? ONE_F : -ONE_F;', '    dsgn = (drgt >= ZERO_F) ? ONE_F : (dlft > ZERO_F ? ONE_F : -ONE_F);', 3)],
    'x', 'x', K_([kern('hydro3d', 'slope', f'_type={t}') for t in (1, 2)]))
BUGS.pop()
bug('b08_central_limit_z', 'C10', [(M + 'HydroBaseFunctor3D.h', '    dcen = HALF_F * (qPlusZ - qMinusZ);', '    dcen = HALF_F * (qPlusZ - qMinusZ) * slope_type;')],
    '3D hydro, slope type 2 (monotonised central), z direction, smooth data', 'along z the central difference no longer limits the slope, so slope type 2 is more compressive along z than along x and y and face values overshoot',
    K_([kern('hydro3d', 'slope', '_type=2', f'_case={c}') for c in (1, 2, 3, 4)]), also=['C09', 'C27'])
bug('b09_pressure_floor', 'C11', [(M + 'MHDBaseFunctor3D.h', '      q[IP] = fmax((params.settings.gamma0 - 1.0) * q[ID] * eint, q[ID] * params.settings.smallp);', '      q[IP] = fmax((params.settings.gamma0 - 1.0) * u[ID] * eint, u[ID] * params.settings.smallp);')],
    '3D MHD cell whose density is below the density floor', 'the pressure is computed from the raw density, so it drops below the floor (it may be negative) exactly where the density floor acts',
    K_([kern('mhd3d', 'prim', '_free=0', n=(1, 1, 1))], range(1, 9)))
bug('b10_dt_min_cell', 'C12', [(M + 'HydroRunFunctors3D.h', '    dx = fmin(dx, params.dz);', '    dx = fmax(dx, params.dz);')],
    '3D hydro with static gravity and a z cell size that differs from the smallest of the other two', 'the time step uses a cell size that is not the smallest, so it exceeds the CFL limit',
    K_([kern('hydro3d', 'dt', f'_iter={i}', '_grav=1', 'gravity.static=true', n=(2, 2, 1)) for i in (0, 1)]))
bug('b11_gravity_energy_z', 'C17', [(M + 'HydroRunFunctors3D.h', '      rhow += 0.5 * dt * gravity(i, j, k, IZ) * (rhoOld + rhoNew);', '      rhow += dt * gravity(i, j, k, IZ) * rhoNew;')],
    '3D gravity along z in a cell whose density changes during the step', 'the z momentum source is not time centred', K_([kern('hydro3d', 'grav', '_what=kernel', n=(1, 1, 1))]), also=['C27'])
bug('b12_trace_wz', 'C27', [(M + 'HydroBaseFunctor3D.h', '      qface[IU] = u + HALF_F * dux + su0 * HALF_F;', '      qface[IU] = u + HALF_F * dux + su0 * HALF_F;')],
    'x', 'x', HS_([hydro(3, 3, 3, 3, 'hllc', 0, 'ref')]))
BUGS.pop()
bug('b13_mirror_z', 'C08', [(M + 'HydroRunFunctors3D.h', 'XX', 'YY')], 'x', 'x', HS_([]))
BUGS.pop()

SM = dict(files=['checks/sdm_modes.h', 'checks/hydro_step_stub.h', 'checks/ppkMHD_version.h'])
bug('b21_rk_w_component', 'C23', [('src/sdm/SDM_Run_Functors.h', 'c1 * U_1(i, j, k, dofMap(idx, idy, idz, IW))', 'c1 * U_0(i, j, k, dofMap(idx, idy, idz, IW))')],
    '3D SDM with a Runge-Kutta integrator of order two or more and motion along z', 'the z momentum of the intermediate stage is combined with the wrong stage, so the integrator loses its order and differs from the published one',
    SD_(3, 2, [sdm(3, 2, (3, 2, 2), 'rk', '_integ=rk2', *INTEG['rk2'])], var='RKSTUB'), **SM)
bug('b22_visc_trace', 'C20', [('src/shared/EulerEquations.h', 'real_t tau_zz = 2 * mu * (g[W_Z] - ONE_THIRD * (g[U_X] + g[V_Y] + g[W_Z]));', 'real_t tau_zz = 2 * mu * (g[W_Z] - ONE_THIRD * (g[U_X] + g[W_Z]));')],
    '3D viscous flow with a velocity gradient along y and a z flux', 'the viscous stress is no longer traceless in 3D', [('equations.cpp', [['_dim=3', '_mode=flux']], (1, 2, 3))], also=['C28'])
bug('b23_dt_join', 'C28', [('src/sdm/SDM_Dt_Functor.h', 'if (dst < src)', 'if (src < dst)', 2)],
    '2D SDM run with several threads', 'the maxima of the threads are combined to their minimum, so the time step exceeds the stability bound of the cell that limits it',
    SD_(2, 2, [sdm(2, 2, (2, 1, 1), 'dt')]), **SM)
bug('b24_mhd_zmax_mirror', 'C14', [('src/shared/BoundariesFunctors.h', 'k0 = 2 * nz + 2 * ghostWidth - 1 - k;\n            if (iVar == IW)\n              sign = -1.0;\n            if (iVar == IC)\n              sign = -1.0;', 'k0 = 2 * nz + 2 * ghostWidth - 1 - k;\n            if (iVar == IW)\n              sign = -1.0;\n            if (iVar == IB)\n              sign = -1.0;')],
    '3D MHD, reflecting upper z face, magnetic field with y or z component', 'the wrong magnetic component is reversed at the upper z face',
    [('bounds.cpp', [mhd(3, 3, 4, 3, 'llf', 0, 'bc', '_dim=3', '_mhd=1', '_list=0,40,80,364')], (1, 2))])
