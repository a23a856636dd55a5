#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept in step by hand with DESIGN.md / MANIFEST.json)."""
import json, os
P = []
def prop(id, title, statement, over, q, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))

HM=["src/muscl/SolverHydroMuscl.cpp","src/muscl/SolverHydroMuscl.h","src/muscl/HydroRunFunctors2D.h","src/muscl/HydroRunFunctors3D.h","src/muscl/HydroBaseFunctor2D.h","src/muscl/HydroBaseFunctor3D.h"]
MM=["src/muscl/SolverMHDMuscl.cpp","src/muscl/SolverMHDMuscl.h","src/muscl/MHDRunFunctors2D.h","src/muscl/MHDRunFunctors3D.h","src/muscl/MHDBaseFunctor2D.h","src/muscl/MHDBaseFunctor3D.h"]
RS=["src/shared/RiemannSolvers.h"]; RM=["src/shared/RiemannSolvers_MHD.h"]
NOT="No existing test runs this code: the 53 stable tests exercise SDM geometry/interpolation helpers, IO round trips, MPI topology and config reading only, and any test would sample a few states while the guarantee is over every state. "

prop("C01","Hydro finite-volume step conserves mass, momentum and energy",
 "On a fully periodic domain without gravity, one time step of the finite-volume (MUSCL) hydrodynamics solver leaves the total mass, each component of total momentum and total energy over the domain unchanged, up to rounding. This holds in 2D and 3D, for every Riemann solver, slope limiter and implementation version that can be selected, any cell sizes, and any admissible flow state.",
 ["inputs","configurations"],"all cell states and time steps; 2D/3D, all riemann / slope_type / implementationVersion choices; anisotropic cells",
 NOT+"A leak from one face, or from one direction or variable only, appears in no existing test.",
 HM+RS,[("one flux per face, added to one cell and subtracted from its neighbour","src/muscl/HydroRunFunctors2D.h UpdateFunctor2D / UpdateDirFunctor2D"),("same in 3D","src/muscl/HydroRunFunctors3D.h")],
 observe=["conservative state before/after SolverHydroMuscl::godunov_unsplit_impl"])
prop("C02","MHD finite-volume step conserves mass, momentum and energy",
 "On a fully periodic domain, one time step of the MHD solver leaves total mass, each component of total momentum, total energy and the volume sum of each magnetic field component unchanged, up to rounding. This holds in 2D and 3D, for every implementation version and MHD Riemann solver, and any admissible state.",
 ["inputs","configurations"],"all cell states, face magnetic fields and time steps; 2D/3D, implementationVersion 0/1/2, hlld/hll/llf, anisotropic cells",
 NOT, MM+RM,[("conservative flux update","src/muscl/MHDRunFunctors2D.h UpdateFunctor2D_MHD, ComputeFluxAndUpdateAlongDir"),("constrained transport update","UpdateEmfFunctor2D / ComputeEmfAndUpdate")],
 observe=["state before/after SolverMHDMuscl::godunov_unsplit_impl"])
prop("C03","Magnetic field stays divergence-free",
 "One time step of the MHD solver leaves the discrete divergence of the face-centred magnetic field unchanged in every cell of a periodic domain, so an initially divergence-free field stays divergence-free for ever. This holds in 2D and 3D, for every implementation version, any cell sizes and any state.",
 ["inputs","configurations","histories"],"all states and time steps (inductive step, hence any number of steps); 2D/3D, implementationVersion 0/1/2, anisotropic cells",
 NOT+"An error in one edge electromotive force or one curl term leaves every run finite and plausible.",
 MM+RM,[("constrained transport: each edge EMF enters the four adjacent faces with alternating sign","src/muscl/MHDRunFunctors2D.h, src/muscl/MHDRunFunctors3D.h")],
 observe=["face-centred magnetic components before/after one step"])
prop("C04","Uniform flow is an exact steady state",
 "If every cell holds the same density, velocity, pressure and magnetic field and the boundaries are periodic, one time step of the finite-volume (MUSCL) hydrodynamics or MHD solver leaves every cell unchanged up to rounding. This holds in 2D and 3D, for every Riemann solver, slope limiter and implementation version.",
 ["inputs","configurations"],"all uniform admissible states (any velocity, sub- or supersonic, any magnetic field), time steps and cell sizes; all solvers, implementation versions and Riemann solvers",
 NOT, HM+MM+RS+RM+["src/sdm/SolverHydroSDM.h","src/sdm/SDM_Flux_Functors.h"],[("consistent fluxes and zero slopes","src/muscl/*RunFunctors*.h"),("interpolation reproduces constants","src/sdm/SDM_Geometry.h")],
 observe=["state after one step"])
prop("C05","Riemann solvers are consistent with the physical flux",
 "For every Riemann solver a configuration can select, in 2D and 3D, hydrodynamics and MHD, the numerical flux between two identical admissible states is fully defined and equals the physical flux of that state, and the interface state reported by the hydrodynamics solvers is that same state. The MHD edge solver, given four identical states, returns exactly the electromotive force u x B of that state along the edge. A configuration never silently ends up without a Riemann solver.",
 ["inputs","configurations"],"all admissible primitive states, all adiabatic indices, all selectable solvers",
 NOT+"test_riemann-like programs call at most one solver on one state; consistency must hold for every state, including transonic and strongly magnetised ones.",
 RS+RM,[("riemann_approx, riemann_llf, riemann_hll, riemann_hllc and their wrappers","src/shared/RiemannSolvers.h"),("riemann_hll, riemann_llf, riemann_hlld, riemann_mhd","src/shared/RiemannSolvers_MHD.h")],
 observe=["flux returned by riemann_hydro / riemann_mhd"])
prop("C06","Riemann solvers implement their formulas and upwind supersonic flow",
 "The Riemann solvers implement their published formulas: local Lax-Friedrichs (centred flux minus half the largest wave speed times the jump of the conserved variables), HLL, HLLC (Toro), HLLD (Miyoshi-Kusano) and, for the approximate solver, the physical flux of the interface state it finds. In particular, when every signal speed points the same way, HLL, HLLC, the approximate solver and MHD HLL/HLLD return exactly the physical flux of the upwind state, and the MHD edge solver returns the electromotive force of the upwind corner state when the flow is supersonic in both directions.",
 ["inputs","configurations"],"all pairs of admissible states satisfying the supersonic condition; hydro 2D/3D and MHD",
 NOT+"Branch boundaries on wave-speed signs are hit by rare states.",
 RS+RM,[("wave speed sampling branches","src/shared/RiemannSolvers.h"),("MHD wave speed sampling","src/shared/RiemannSolvers_MHD.h")],
 observe=["flux returned for a left/right pair"])
prop("C07","Riemann solvers are mirror symmetric",
 "Reflecting the problem (swapping the left and right states and reversing the normal velocity, and the normal magnetic field in MHD) changes the sign of the mass, energy, tangential momentum and induction fluxes, with the appropriate parity, and leaves the normal momentum flux unchanged, for every selectable solver and every pair of states; the transverse components are treated identically. The MHD edge solver has the corresponding symmetries: reflecting either direction, exchanging them, permuting the axes cyclically or reversing the magnetic field changes the electromotive force only by the appropriate sign.",
 ["inputs","configurations"],"all pairs of admissible states; all selectable hydro and MHD solvers",
 NOT, RS+RM,[("symmetric treatment of left/right states","src/shared/RiemannSolvers.h, src/shared/RiemannSolvers_MHD.h")],
 observe=["fluxes of the original and the reflected problem"])
prop("C08","Implementation versions compute the same solution",
 "For the same input state and time step, all implementation versions of the finite-volume scheme that can be selected give the same updated state in every interior cell, up to rounding: versions 0 and 1 for hydrodynamics (with and without gravity), and 0, 1 and 2 for MHD, in 2D and 3D, for equal and unequal cell sizes. (For MHD version 2, as long as no density or pressure floor is active.)",
 ["inputs","configurations"],"all states and time steps, all selectable Riemann solvers; 2D/3D, equal and unequal cell sizes",
 NOT, HM+MM,[("alternative kernels for the same algorithm, chosen by implementationVersion","src/muscl/SolverHydroMuscl.cpp, src/muscl/SolverMHDMuscl.cpp")],
 observe=["state after one step under each version"])
prop("C09","The scheme treats all axes and both orientations alike",
 "Permuting the coordinate axes of the initial state (positions, cell sizes and vector components together), or mirroring it along one axis, and then taking a time step gives the permuted or mirrored result, up to rounding. This holds for the finite-volume hydrodynamics and MHD schemes in 2D and 3D on periodic domains, for every implementation version and any cell sizes.",
 ["inputs","configurations"],"all states; axis exchange and mirror along each axis; implementationVersion 0/1; all Riemann solvers",
 NOT+"A slip in the code specific to one direction is invisible to a test that does not exercise that direction asymmetrically.",
 HM+RS,[("direction-specific copies of trace, flux and update code","src/muscl/HydroBaseFunctor2D.h, HydroRunFunctors2D.h and 3D twins")],
 observe=["state after one step"])
prop("C10","Limited slopes never create new extrema",
 "With slope limiting enabled, the reconstructed variation of each primitive variable and face-centred magnetic field component in a cell has the sign of both neighbouring differences, vanishes at a local extremum, and keeps the values extrapolated to the faces within the range of the cell and its neighbour; type 1 is the minmod and type 2 the monotonised-central slope. With type 0 the slopes are zero, and exchanging lower and upper neighbours changes only the sign of the slope.",
 ["inputs","configurations"],"all cell and neighbour values; slope_type 0, 1, 2; hydro and MHD, 2D and 3D",
 NOT, ["src/muscl/HydroBaseFunctor2D.h","src/muscl/HydroBaseFunctor3D.h","src/muscl/MHDBaseFunctor2D.h","src/muscl/MHDBaseFunctor3D.h"],[("slope_unsplit_hydro_2d/3d","src/muscl/HydroBaseFunctor*.h, MHDBaseFunctor*.h")],
 observe=["slopes returned by the limiter"])
prop("C11","Primitive conversion inverts the equation of state and respects the floors",
 "Converting conserved to primitive variables in the finite-volume solvers gives density at least the density floor and pressure at least density times the pressure floor, for any input, and applies to every cell of the array including ghost cells. When no floor is active, the primitive variables reproduce the conserved density, momentum and total energy exactly (including, in MHD, the magnetic energy of the cell-centred field, which is the average of the two faces), and the sound speed squared is gamma*p/rho; with an isothermal sound speed configured, pressure is density times its square.",
 ["inputs","configurations"],"all conserved states (including unphysical ones for the floors), all adiabatic indices; hydro, MHD and SDM; 2D and 3D",
 NOT, ["src/muscl/HydroBaseFunctor2D.h","src/muscl/HydroBaseFunctor3D.h","src/muscl/MHDBaseFunctor2D.h","src/muscl/MHDBaseFunctor3D.h","src/sdm/SDMBaseFunctor.h","src/shared/EulerEquations.h","src/muscl/HydroRunFunctors2D.h","src/muscl/HydroRunFunctors3D.h","src/muscl/MHDRunFunctors2D.h","src/muscl/MHDRunFunctors3D.h"],[("eos, computePrimitives, constoprim_mhd, ConvertToPrimitives functors","src/muscl, src/sdm")],
 observe=["primitive array after conversion"])
prop("C12","The time step satisfies the CFL condition",
 "The time step chosen for a state satisfies, in every interior cell, dt * sum over directions of (|v_d| + c_d)/dx_d <= cfl, where c is the sound speed (fast magnetosonic speed in MHD), and is the largest such value, so it is finite and positive for every admissible state. With gravity it also satisfies, in every cell, the tighter limit that accounts for the acceleration over the step.",
 ["inputs","configurations"],"all cell states, cell sizes, cfl numbers; hydro and MHD, 2D and 3D, with and without gravity",
 NOT+"A cell, direction or ghost row left out of the reduction matters only for states whose fastest cell is there.",
 ["src/muscl/HydroRunFunctors2D.h","src/muscl/HydroRunFunctors3D.h","src/muscl/MHDRunFunctors2D.h","src/muscl/MHDRunFunctors3D.h","src/muscl/SolverHydroMuscl.h","src/muscl/SolverMHDMuscl.h"],[("ComputeDtFunctor*: max reduction over interior cells","src/muscl/*RunFunctors*.h"),("compute_dt_local","src/muscl/Solver*Muscl.h")],
 observe=["time step returned by compute_dt_local"])
prop("C13","A run advances time consistently and stops exactly at the end",
 "Each iteration advances the simulation time by exactly the time step used by the update and the iteration counter by one; no step passes the requested end time, and a run stops exactly when the end time or the maximum number of steps is reached; each update reads the array holding the latest solution and writes the other one. The initial and the final state are written and, with N outputs requested, the solution is written at the start of an iteration whenever the time has passed the next multiple of tEnd/N, always from the array holding the current solution and with consecutive output numbers.",
 ["inputs","histories","configurations"],"all sequences of time steps returned by the scheme, all end times, step limits and output cadences",
 NOT, ["src/shared/SolverBase.cpp","src/shared/SolverBase.h","src/main.cpp","src/shared/HydroParams.cpp"],[("compute_dt clamp, next_iteration, finished, should_save_solution","src/shared/SolverBase.cpp")],
 observe=["time, iteration counter, saved output count after each iteration"])
prop("C14","Boundary conditions fill ghost cells correctly",
 "Filling the boundaries gives every ghost cell of every face the value its boundary type prescribes: the opposite interior cell for periodic, the mirrored interior cell with the normal velocity (and normal magnetic field) reversed for reflecting, the nearest interior cell for outflow, with edges and corners filled consistently; interior cells are not changed. This holds for every combination of boundary types, in 2D and 3D, hydrodynamics and MHD finite-volume solvers, and any domain at least as many cells wide as there are ghost layers.",
 ["inputs","configurations"],"all cell values; all boundary types per face; all faces, edges, corners; several grid sizes including non-cubic ones",
 NOT, ["src/shared/BoundariesFunctors.h","src/shared/SolverBase.cpp","src/shared/SolverBase.h","src/muscl/SolverHydroMuscl.cpp","src/muscl/SolverMHDMuscl.cpp"],[("MakeBoundariesFunctor2D/3D(_MHD)","src/shared/BoundariesFunctors.h")],
 observe=["array contents after make_boundaries"])
prop("C15","Distributed boundary exchange equals the single-domain result",
 "Running on several MPI processes, filling boundaries gives every ghost cell of every subdomain (faces, edges and corners) the value the same cell has when the whole domain is handled by one process, for every decomposition and combination of periodic, reflecting and outflow boundaries. Every subdomain also knows its correct position, extent and neighbours in the global domain.",
 ["inputs","configurations","schedules"],"all cell values; several process grids in 2D and 3D; boundary types periodic/reflecting/outflow per face",
 "The MPI tests check topology of one layout only; no test exchanges solver data between processes.",
 ["src/shared/mpiBorderUtils.h","src/shared/SolverBase.cpp","src/shared/HydroParams.cpp","src/shared/HydroParams.h","src/utils/mpiUtils/MpiCommCart.h","src/utils/mpiUtils/MpiComm.h"],[("copy_boundaries / transfert_boundaries / copy_boundaries_back","src/shared/SolverBase.cpp, src/shared/mpiBorderUtils.h"),("HydroParams::setup_mpi","src/shared/HydroParams.cpp")],
 observe=["local arrays after make_boundaries on each process"])
prop("C16","A saved state is restored exactly",
 "Writing the solution to an HDF5 file and restarting from it restores every interior cell value of every variable bit for bit, together with the simulation time (unless the time is asked to be reset to zero) and the output number, in 2D and 3D, for hydrodynamics and MHD, with and without ghost cells in the file and with compression, on one process and on process grids writing one common file. Every variable is stored under its own name, so no two variables are exchanged. A restart asked to double the resolution gives every new cell the value of the saved cell that contains it.",
 ["inputs","configurations","histories"],"all cell values; 2D/3D, 4/5/8 variables, ghost cells on or off, non-cubic grids",
 "The IO tests round-trip one smooth field on one grid and compare datasets between files, not values with the solver state nor time/iteration.",
 ["src/utils/io/IO_HDF5.h","src/utils/io/IO_HDF5.cpp","src/utils/io/IO_ReadWrite.cpp","src/shared/SolverBase.cpp","src/muscl/SolverHydroMuscl.h"],[("Save_HDF5 / Load_HDF5","src/utils/io/IO_HDF5.h"),("init_restart","src/muscl/SolverHydroMuscl.h")],
 observe=["state array, time and output number after load","contents of the HDF5 file"])
prop("C17","Gravity source terms are consistent",
 "A static gravity field changes the momentum of each cell by the time-centred product of density and acceleration, changes the total energy by exactly the corresponding change of kinetic energy (internal energy is untouched), leaves density unchanged, and a zero field changes nothing. A uniform gas at rest in a uniform field accelerates at exactly that rate, and both implementation versions of the hydrodynamics scheme agree when gravity is on.",
 ["inputs","configurations"],"all states before and after the flux update, all gravity fields and time steps; 2D and 3D",
 NOT, ["src/muscl/HydroRunFunctors2D.h","src/muscl/HydroRunFunctors3D.h","src/muscl/SolverHydroMuscl.cpp"],[("GravitySourceTerm functors","src/muscl/HydroRunFunctors2D.h, HydroRunFunctors3D.h")],
 observe=["state after the source term update"])
prop("C18","Parallel kernels give the same result for every thread schedule",
 "Within each parallel kernel of a time step, boundary fill or time-step computation, no two work items touch the same memory location unless all of them only read it or update it atomically, and no work item writes global or static data, so the result does not depend on the number of threads or on the order in which work items run (except for rounding where atomic additions are used). Every array access stays inside its array.",
 ["schedules","configurations"],"all pairs of distinct work items of every kernel, i.e. all interleavings; all grid sizes up to 100 cells per direction and all boundary types (SDM: small grids); hydro, MHD and SDM, all implementation versions",
 "Tests run two threads on one machine; a race shows up only under particular interleavings.",
 HM+MM+["src/shared/BoundariesFunctors.h","src/sdm/SDM_Flux_Functors.h","src/sdm/SDM_Interpolate_Functors.h","src/sdm/SDM_Run_Functors.h","src/shared/kokkos_shared.h"],[("each work item writes its own cell; shared updates use Kokkos::atomic_*","src/muscl/*RunFunctors*.h")],
 observe=["memory locations read and written by each work item"])
prop("C19","Initial conditions describe an admissible state matching the parameters",
 "Every built-in initial condition of the finite-volume (MUSCL) solvers yields, in every cell and for all admissible parameter values, positive density and positive pressure, with the state prescribed for the region the cell lies in. MHD initial conditions additionally have a divergence-free magnetic field and a total energy that includes the magnetic energy of that field (for the implosion: when the same field is given on both sides).",
 ["inputs","configurations"],"all problem parameters within documented ranges and all cells; hydro 2D/3D, MHD 2D/3D problems",
 NOT, ["src/muscl/HydroInitFunctors2D.h","src/muscl/HydroInitFunctors3D.h","src/muscl/MHDInitFunctors2D.h","src/muscl/MHDInitFunctors3D.h","src/shared/problems/BlastParams.h","src/shared/problems/ImplodeParams.h","src/shared/problems/initRiemannConfig2d.h"],[("Init*Functor*","src/muscl/*InitFunctors*.h")],
 observe=["state array after init"])
prop("C20","Euler equations: conversions, fluxes and characteristics are exact",
 "For every admissible state and direction, transforming any vector to characteristic variables of the Euler equations and back returns that vector, and the characteristic directions are the eigenvectors of the flux Jacobian for the eigenvalues u-c, u and u+c. Conversion to primitive variables, pressure, speed of sound sqrt(gamma*p/rho), inviscid fluxes and viscous (Newtonian stress, traceless in the given dimension) fluxes are the textbook expressions, in 2D and 3D.",
 ["inputs"],"all admissible states, all vectors, all directions, all adiabatic indices",
 "One existing test multiplies the matrices at one state; the identity must hold for every state.",
 ["src/shared/EulerEquations.h"],[("eigen matrices, cons_to_charac, charac_to_cons","src/shared/EulerEquations.h")],
 observe=["matrix products, transformed vectors"])
prop("C21","Spectral difference interpolation, derivatives and averages are exact",
 "Interpolating from solution points to flux points reproduces every polynomial of degree up to N-1 exactly, and interpolating or differentiating from flux points to solution points reproduces every polynomial of degree up to N and its derivative divided by the cell size, in 2D and 3D and along every direction. Cell averages and cell-averaged gradients of the solution are those of the polynomial through the solution points.",
 ["inputs","configurations"],"all polynomials up to the stated degree (all coefficients), N = 1..4, 2D and 3D, all directions",
 "Existing tests print or compare a few fixed functions at a few orders.",
 ["src/sdm/SDM_Geometry.h","src/sdm/SDMBaseFunctor.h","src/sdm/SDM_Interpolate_Functors.h","src/sdm/sdm_shared.h"],[("Lagrange matrices","src/sdm/SDM_Geometry.h init_lagrange_1d"),("Interpolate_At_FluxPoints/SolutionPoints functors","src/sdm/SDM_Interpolate_Functors.h")],
 observe=["interpolated arrays"])
prop("C22","Spectral difference step conserves mass, momentum and energy",
 "On a periodic domain one step of the spectral difference solver leaves the integral (the quadrature with the weights of the solution points) of mass, momentum and energy over the domain unchanged up to rounding, for every order, every interface flux function, every time integrator and with or without limiter, positivity correction and viscous terms.",
 ["inputs","configurations"],"all solution point states and time steps; N = 1..4 in 2D, low order in 3D; viscous terms, limiter and positivity correction on/off",
 "Tests of SDM functors use a few fixed functions and never take a full step.",
 ["src/sdm/SolverHydroSDM.h","src/sdm/SDM_Flux_Functors.h","src/sdm/SDM_Interpolate_Functors.h","src/sdm/SDM_Viscous_Flux_Functors.h","src/sdm/SDM_Interpolate_viscous_Functors.h","src/sdm/SDM_Run_Functors.h"],[("single Riemann flux copied to both sides of each face","src/sdm/SDM_Flux_Functors.h"),("flux divergence","src/sdm/SDM_Interpolate_Functors.h")],
 observe=["quadrature of the state before/after one step"])
prop("C23","Runge-Kutta integrators follow their published scheme",
 "Each time integrator of the spectral difference solver (forward Euler, SSP-RK2, SSP-RK3, SSP-RK54) evaluates the right-hand side at the stages of its published Shu-Osher form and combines them with its published coefficients, for any right-hand side; the scheme satisfies the order conditions of its nominal order. The ghost cells match the interior at every evaluation.",
 ["inputs","configurations"],"all right-hand sides (evaluations are arbitrary values), all time steps; all four integrators; 2D and 3D",
 "No test integrates in time.",
 ["src/sdm/SolverHydroSDM.h","src/sdm/SDM_Run_Functors.h"],[("time_int_*","src/sdm/SolverHydroSDM.h"),("SDM_Update_RK_Functor","src/sdm/SDM_Run_Functors.h")],
 observe=["updated state as a function of the right-hand side evaluations"])
prop("C24","Limiter and positivity correction keep cell averages",
 "In the spectral difference solver the limiter and the positivity correction never change the cell average of a conserved variable. The limiter replaces a cell by its average plus the slopes obtained by the minmod function of the characteristic variables (speed of sound and velocity of the cell average) exactly when one of them changes. After the positivity correction of a cell with admissible average, density is not below its floor and pressure not negative at the flux points.",
 ["inputs","configurations"],"all solution point values around admissible averages, N = 1..4, 2D and 3D",
 "Existing tests evaluate one smooth and one discontinuous function at fixed orders.",
 ["src/sdm/SDM_Limiter_Functors.h","src/sdm/SDM_Positivity_preserving.h","src/sdm/SDM_Geometry.h"],[("Average_Conservative_Variables_Functor, Apply_limiter_Functor","src/sdm/SDM_Limiter_Functors.h"),("Apply_positivity_Functor_v2","src/sdm/SDM_Positivity_preserving.h")],
 observe=["solution point values and averages before/after"])
prop("C28","A spectral difference step is the spectral difference scheme",
 "One forward Euler step of the spectral difference solver equals the definition of the scheme: values at flux points are the interpolated ones, each interior face has one flux, the interface flux of the two states it separates (with velocities rotated to the face), the update is minus dt times the derivative of the flux polynomials, and viscous fluxes use the traceless Newtonian stress of border-averaged velocities and gradients. A uniform flow is kept unchanged, the time step is cfl / max over points of N * sum over directions (c+|u|)/dx, and ghost cells are the mirrored (momentum reversed), copied or periodic image of the interior for wall, outflow and periodic boundaries.",
 ["inputs","configurations"],"all solution point states, time steps and cell sizes; N = 1..4 in 2D, low order in 3D",
 "Tests run single functors on fixed functions and never take a step.",
 ["src/sdm/SolverHydroSDM.h","src/sdm/SDM_Flux_Functors.h","src/sdm/SDM_Viscous_Flux_Functors.h","src/sdm/SDM_Interpolate_viscous_Functors.h","src/sdm/SDM_Dt_Functor.h","src/sdm/SDM_Boundaries_Functors.h"],[("compute_fluxes_divergence","src/sdm/SolverHydroSDM.h"),("ComputeDt functors","src/sdm/SDM_Dt_Functor.h"),("MakeBoundariesFunctor_SDM","src/sdm/SDM_Boundaries_Functors.h")],
 observe=["solution point values before/after one step, ghost cells, time step"])
prop("C25","Parameter files are read faithfully",
 "Reading a parameter file, from the file or from a buffer holding its text, returns for every section and key present exactly the value written in it, and the caller's default otherwise (or if the value is not of the type asked for): text values without the white space around them, integers decimal or hexadecimal, floating-point numbers in single precision, truth values 1/yes/true/on and 0/no/false/off. Comment lines (starting with ; or #), comments at the end of a line (; after white space), blank lines, white space and the letter case of section and key names do not matter. An indented line after a key gives that key a further value, and of several values given to a key the last one counts; the first wrong line (no ']' or no '=') is reported and the lines around it are still read. No input text causes an out-of-bounds memory access. (Section and key names have at most 49 characters, section names contain no '.', lines of a file are at most 198 characters long, and the text contains no NUL.)",
 ["inputs","configurations"],"all line contents up to the stated length; all section/key spellings",
 "One existing test reads one file and only its exit code is checked.",
 ["src/utils/config/inih/ini.cpp","src/utils/config/inih/INIReader.cpp","src/utils/config/ConfigMap.cpp"],[("ini_parse","src/utils/config/inih/ini.cpp"),("typed getters","src/utils/config/inih/INIReader.cpp, src/utils/config/ConfigMap.cpp")],
 observe=["values delivered to the parameter map"])
prop("C26","Numerical polynomials-based MOOD scheme conserves and reconstructs",
 "The high-order MOOD finite-volume scheme conserves mass, momentum and energy on a periodic domain and reconstructs polynomials of its nominal degree exactly.",
 ["inputs","configurations"],"all states, all degrees",
 "Not built or tested at this commit.",
 ["src/mood/SolverHydroMood.h"],[("least-squares polynomial reconstruction and a posteriori limiting","src/mood")],
 observe=["state after one step"])
prop("C27","Hydro step equals the published MUSCL-Hancock scheme",
 "One time step of the finite-volume hydrodynamics solver on a periodic domain gives in every cell the state prescribed by the unsplit MUSCL-Hancock scheme: primitive variables with limited slopes, extrapolated to the faces and half a time step forward (with each direction's own cell size, and with the gravity predictor if a gravity field is present), the Riemann flux of the two states at each face, and the conservative update by the flux differences plus the gravity source term. This holds for both implementation versions, in 2D and 3D, for every slope limiter and any cell sizes.",
 ["inputs","configurations"],"all states and time steps; slope_type 0, 1, 2; implementationVersion 0/1; unequal cell sizes; with and without gravity; the Riemann solver is an arbitrary function",
 NOT+"A wrong coefficient in the predictor lowers the order of the scheme but leaves it conservative, symmetric and plausible.",
 HM,[("trace_unsplit_*, ComputeAndStoreFluxesFunctor, ComputeTraceAndFluxes_Functor, Update functors","src/muscl/HydroBaseFunctor*.h, src/muscl/HydroRunFunctors*.h")],
 observe=["state after one step"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
