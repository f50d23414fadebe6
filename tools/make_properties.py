#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit the wording)."""
import json, os
R = "hydraxmpm/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[f if f.startswith('projects/') else R+f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({"observe_at": observe} if observe else {}), **({"state": state} if state else {}))))

prop("C01", "Interpolation weights are exact, consistent B-splines",
 "For every particle position whose stencil lies inside the grid, the linear, quadratic and cubic weights in 2D and 3D equal the tensor-product B-spline of that order at each stencil node: they are non-negative, sum to one, reproduce linear fields, and belong to the nodes around the particle. The gradients are the spatial derivatives of those weights, sum to zero and reproduce the gradient of linear fields; in 2D the third component is zero. A stencil node outside the grid gets weight and gradient zero instead of wrapping to or being merged into another node's value.",
 ["inputs", "configurations"], "all particle positions (interior, on cell faces, next to and beyond the grid edge), cell sizes, grid origins and shapes, kernels and dimensions",
 "The mapping tests sample a handful of 2D points and do not run today (they call an API that no longer exists); nothing samples 3D, cubic, boundary or off-origin grids.",
 ["shapefunctions/mapping.py", "shapefunctions/linear.py", "shapefunctions/quadratic.py", "shapefunctions/cubic.py"],
 [("stencil base index and offsets, hashing, out-of-grid masking", "shapefunctions/mapping.py: compute"), ("1D kernels and tensor products", "shapefunctions/*.py")],
 ["interaction cache returned by the mapping"])

prop("C02", "Particle-grid scatter and gather conserve and interpolate",
 "Scattering particle data to the grid without normalisation conserves the mass-weighted total of scalars, vectors and tensors, and with normalisation yields at each node the mass- and weight-weighted average of nearby particles (a constant field stays constant, nodes without mass are zero). Gathering a grid field returns each particle's weighted interpolation, so constant and linear grid fields are reproduced at the particle positions. Gather and unnormalised scatter are transposes of one another.",
 ["inputs", "configurations"], "all particle clouds, data ranks, masses (including zero and tiny), kernels, dimensions and grids",
 "The three mapping tests fail to run today and would check one cloud; conservation and adjointness are identities over all inputs.",
 ["shapefunctions/mapping.py"], [("scatter_to_grid", "shapefunctions/mapping.py"), ("gather_from_grid", "shapefunctions/mapping.py")])

prop("C03", "A time step conserves mass and momentum and advances the clock",
 "For bodies away from the grid edge, each step of either solver leaves every particle mass unchanged, and changes the total linear momentum by exactly the external impulse (zero with internal stress alone; total mass times gravity times the time step under gravity), whatever the stress, velocities, (uniform) blending ratio or number of bodies, as long as the speed cap does not act. Simulated time grows by the time step and the step count by one. With no stress and no forces, a fully damped (PIC) transfer never increases kinetic energy, and with classic affine transfers it also conserves total angular momentum.",
 ["inputs", "histories", "configurations"], "all particle states, kernels, solvers, blending parameters, dimensions, body counts and step sequences with stencils inside the grid",
 "The solver tests are one-particle one-step smoke tests that no longer run; conservation is a statement about all states and all histories.",
 ["solvers/usl.py", "solvers/usl_asflip.py", "forces/gravity.py"], [("particle-to-grid sums, grid integration, grid-to-particle sums", "solvers/usl.py, solvers/usl_asflip.py")],
 ["particle mass and velocity in the simulation state before and after a step"])

prop("C04", "Deformation follows the velocity field",
 "When particle velocities and affine parts come from one affine velocity field (without affine parts: inside a regular particle arrangement), the step recovers that field's velocity gradient at every particle, in the compression-positive convention (the negative of the spatial gradient, row = velocity component, column = direction). Every step multiplies the deformation gradient from the left by the identity minus velocity gradient times time step, keeps plane strain in 2D, sets volume to initial volume times the determinant, and moves particles with the grid velocity. A stored deformation history, when requested, accumulates the full deformation and is never reset, while the optional shear reset keeps the volume and leaves an isotropic (in-plane) stretch.",
 ["inputs", "histories", "configurations"], "all affine fields, clouds, kernels, both solvers (gradient-based and classic affine), dimensions and multi-step histories",
 "Existing solver tests do not run and never compared gradients or volumes with an analytic field.",
 ["solvers/usl.py", "solvers/usl_asflip.py", "constitutive_laws/constitutive_law.py"], [("velocity gradient, deformation and volume update", "solvers/usl.py: _g2p; solvers/usl_asflip.py: _g2p"), ("shear reset", "constitutive_laws/constitutive_law.py")])

prop("C05", "One step agrees with an independent reference of the scheme",
 "For any particle state, a step of either solver produces the positions, velocities, velocity gradients, deformation gradients, volumes and affine state of the published update-stress-last scheme: mass-weighted projection, internal force from stress, volume and weight gradients, explicit Euler on the grid, and FLIP/PIC (respectively affine FLIP) transfer with the configured blending. The affine solver also applies its documented extras: less FLIP for poorly supported particles, the separable position correction that differs for compressed and expanded particles, the small-mass cutoff, and the cap on particle speed at the configured fraction of a cell per step.",
 ["inputs", "histories", "configurations"], "all particle states and solver parameters, kernels, dimensions, several steps in sequence",
 "No test runs a solver step successfully today; a sampled test could not separate the many blending branches.",
 ["solvers/usl.py", "solvers/usl_asflip.py"], [("transfers, integration, blending, clamp", "solvers/usl.py, solvers/usl_asflip.py")])

prop("C06", "Results do not depend on ordering, grid placement or frame",
 "Permuting the particles of a body permutes the results; shifting particles and grid together, or particles by whole cells inside a larger grid, shifts the results; mirroring or exchanging coordinate axes mirrors or exchanges them. Adding a constant velocity to everything adds that velocity and displacement to the result and leaves stresses and deformation unchanged. Each relation holds over many steps, for both solvers, with forces and laws acting.",
 ["inputs", "histories", "configurations"], "all particle states, permutations, translations, axis symmetries and boosts, kernels, laws",
 "These relate pairs of runs; no test compares two runs.",
 ["solvers/usl.py", "solvers/usl_asflip.py", "shapefunctions/mapping.py", "constitutive_laws/"], [("whole solver step", "solvers/usl.py: __call__")])

prop("C07", "Steps are pure and independent of how they are executed",
 "A step is a function of the state it is given: it leaves its input unchanged, repeated calls give the same result, and calling it eagerly, just-in-time compiled, inside a compiled loop or scan, or through a restart from an intermediate state gives the same trajectory up to rounding. The state keeps its structure, shapes and dtypes from step to step for every body size down to a single particle.",
 ["histories", "configurations", "programs"], "all scenes, execution modes and splits of a run into segments",
 "Tests run single calls in one mode; equivalence is over modes and histories.",
 ["solvers/usl.py", "solvers/usl_asflip.py", "common/simstate.py"], [("functional state update", "solvers/usl.py: __call__")])

prop("C08", "Bodies, grids, laws and forces act exactly where they are wired",
 "A scene assembled with the builder applies to each body the grid, law, law state, kernel, forces and obstacles registered for it, whatever the order or interleaving in which things were registered and coupled, and whatever unused or rigid entries are present. A body that shares no grid with another evolves exactly as it would alone; bodies that share a grid evolve exactly as one body holding all their particles when their laws agree. Rigid bodies and uncoupled entries are never altered by the solver. A solver set up with only some of the couplings, forces and obstacles acts as if the others were not there, and several solvers keep their states apart.",
 ["configurations", "inputs", "histories"], "all registration orders, decoy entries, body counts, shared or separate grids, laws and forces",
 "No existing test builds a scene with more than one body.",
 ["common/builder.py", "solvers/coupling.py", "solvers/usl.py", "solvers/usl_asflip.py"], [("index registries and couplings", "common/builder.py"), ("index use in the step", "solvers/*.py")])

prop("C09", "Material laws are isotropic",
 "For every constitutive law, rotating or reflecting the inputs (velocity gradient, stress and tensorial history) rotates the resulting stress and history and leaves scalar history unchanged. Each particle's result depends only on that particle's inputs, so batches can be reordered, split or merged freely.",
 ["inputs", "histories"], "all orthogonal transforms, material states, strain-rate paths and parameters, for every law",
 "Tests check single hydrostatic or axis-aligned states of two laws.",
 ["constitutive_laws/"], [("stress update of each law", "constitutive_laws/*.py")])

prop("C10", "Stress rotates with the material under spin",
 "Under a rigid spin (no strain rate) the history-dependent plasticity laws rotate the stress with the material, in the same sense as the deformation gradient, and keep pressure, deviatoric magnitude and hardening unchanged up to the square of the rotation per step; this also holds for the stresses of a body rotating through a solver. Rigid motion alone creates no stress in any law.",
 ["inputs", "histories", "configurations"], "all spins, initial stresses, step sizes and step counts for the laws with an objective rate; all laws for the no-stress part",
 "Tests never apply rotation; the sense of rotation can only be seen on general tensors and paths.",
 ["constitutive_laws/modifiedcamclay.py", "constitutive_laws/druckerprager.py", "utils/math_helpers.py"], [("Jaumann correction", "utils/math_helpers.py: get_jaumann_increment"), ("use with compression-positive rates", "constitutive_laws/*.py")])

prop("C11", "Linear elasticity obeys Hooke's law incrementally",
 "Each update of the linear elastic law adds the isotropic Hooke response of the strain increment (symmetric velocity gradient times time step) to the stress, with bulk, shear and Lame moduli derived from Young's modulus and Poisson's ratio. The response is linear and additive in the increments, path-independent, unaffected by spin, and a closed strain cycle returns the stress.",
 ["inputs", "histories"], "all moduli, stresses, velocity gradients, time steps and increment sequences",
 "One hydrostatic update is tested; shear, coupling between components and additivity are not.",
 ["constitutive_laws/linearelastic.py"], [("stress increment and modulus formulas", "constitutive_laws/linearelastic.py")])

prop("C12", "Newtonian fluid pressure and viscosity follow the equation of state",
 "The Newtonian fluid's pressure is the bulk modulus times (density ratio to the power of the exponent, minus one), never negative, and its deviatoric stress is twice the viscosity times the deviatoric strain rate, compression positive. A state created from a density and pressure, or from material points, reproduces that pressure at that density. Pressure never decreases when density increases, and the result does not depend on previous stress or time step.",
 ["inputs", "histories"], "all parameters, densities, pressures and velocity gradients",
 "The only stress test does not run today; the state test checks one pressure.",
 ["constitutive_laws/newtonfluid.py"], [("equation of state, viscosity, reference density", "constitutive_laws/newtonfluid.py")])

prop("C13", "Granular rheology shear stress is friction times pressure",
 "For the granular mu(I) law a connected particle (density above its reference) has pressure given by the linear equation of state and a deviatoric stress aligned with the deviatoric strain rate whose magnitude (square root of the second invariant) is the regularised mu(I) times pressure, with mu rising from the static towards the dynamic value as the inertial number grows, and never above it. A disconnected particle carries no stress. Creating a state from density and pressure, or from material points, reproduces that pressure.",
 ["inputs"], "all parameters, densities, pressures, shear rates over many decades, and directions",
 "No test covers this law.",
 ["constitutive_laws/mu_i_rheology.py"], [("equation of state, viscosity terms, cutoff", "constitutive_laws/mu_i_rheology.py")])

prop("C14", "Drucker-Prager stress stays admissible and returns correctly",
 "After every update the Drucker-Prager stress is on or inside the cone (including cohesion and hardening), equals the elastic prediction when that is admissible, and otherwise is its non-associated return: same deviatoric direction, plastic volume change set by the dilatancy coefficient, or the apex when the cone is missed. Accumulated plastic strain never decreases, elastic strain and stress stay consistent with the moduli, and a particle below the reference density carries no stress.",
 ["inputs", "histories"], "all parameters (friction, dilatancy, cohesion, hardening), states and strain-increment sequences, including tension and apex returns",
 "No test covers this law; admissibility is over all loading histories.",
 ["constitutive_laws/druckerprager.py"], [("trial state, cone and apex return", "constitutive_laws/druckerprager.py")])

prop("C15", "Modified Cam Clay stays admissible and on its compression lines",
 "Along any loading path of moderate increments the Modified Cam Clay stress stays on or inside the yield ellipse of the current preconsolidation pressure; inside it the response is elastic (pressure exponential in volumetric strain, shear modulus from Poisson's ratio, preconsolidation unchanged), and on it flow is associated. Pressure, preconsolidation pressure and specific volume keep satisfying the swelling and normal consolidation lines, elastic unloading and reloading retrace the same states, and a particle looser than the reference line carries no stress.",
 ["inputs", "histories"], "all parameters, over-consolidation ratios, stress states and strain paths (isotropic, shear, mixed, unloading)",
 "The only test file for this law fails to import today; admissibility and consistency are path properties.",
 ["constitutive_laws/modifiedcamclay.py"], [("elastic predictor, implicit return, hardening", "constitutive_laws/modifiedcamclay.py")])

prop("C16", "Cam Clay initial states lie where they are asked to lie",
 "A Cam Clay state created from pressure and over-consolidation ratio has that ratio, a density on the matching swelling line, a stress with the given pressure and the given shear (in compression or extension, reduced to the yield surface only when outside). A state created from stress lies on the yield surface, one created from pressure and density is the inverse of the swelling line, and every created state can be advanced by the law at once and is in equilibrium: a zero strain increment returns the initial stress. The critical state, normal consolidation and swelling lines agree where they meet.",
 ["inputs"], "all parameters, pressures, ratios, shear stresses and densities",
 "No running test creates these states.",
 ["constitutive_laws/modifiedcamclay.py", "utils/math_helpers.py"], [("state constructors and line formulas", "constitutive_laws/modifiedcamclay.py"), ("stress from p and q", "utils/math_helpers.py: reconstruct_stress_from_triaxial")])

prop("C17", "The suggested time step respects the wave and particle speeds",
 "Every law that offers a critical time step returns the safety factor times the cell size divided by the largest over particles of elastic or acoustic wave speed plus particle speed, for that particle's current density and the law's moduli. It is positive, scales linearly with cell size and safety factor, never grows when a particle gets faster or the material stiffer, and depends only on the most restrictive particle.",
 ["inputs"], "all particle states and law parameters",
 "No test calls it.",
 ["constitutive_laws/"], [("get_dt_crit of each law", "constitutive_laws/*.py")])

prop("C18", "The element driver imposes exactly the prescribed deformation",
 "Each driver step applies the prescribed velocity gradient to every particle: the deformation gradient is advanced by the matrix exponential (or, when configured, its linear approximation), volume and density follow its determinant, mass and position are unchanged, and stress and law state are those the law gives for that velocity gradient and time step.",
 ["inputs", "histories", "configurations"], "all velocity-gradient histories, particle counts, laws and both deformation options",
 "No test covers the driver.",
 ["element_tests/driver.py"], [("driver step", "element_tests/driver.py")])

prop("C19", "Triaxial tests honour their control mode along the whole path",
 "At every recorded point of a drained triaxial run the lateral stress (or the mean pressure in constant-pressure mode) equals the confining value, and in an undrained run the volume is constant; the axial strain grows at the prescribed rate and both lateral directions stay equal. The recorded trajectory is the sequence of states after each stride of steps, identical to stepping the law along the recorded velocity gradients, and Cam Clay runs approach the critical state stress ratio without leaving the yield surface.",
 ["inputs", "histories", "configurations"], "all confining pressures, over-consolidation ratios, material parameters, rates, strides and control modes",
 "No test runs it; a script in the repository plots one case.",
 ["element_tests/triaxial_test.py", "element_tests/driver.py"], [("lateral-rate solve and scan over steps", "element_tests/triaxial_test.py")])

prop("C20", "Signed distances and normals describe the advertised shapes",
 "For every shape in the collection the signed distance equals the distance to its surface (negative inside, positive outside; the domain container positive inside), at every point, size and dimension, and moving or rotating the shape moves and rotates the field with it. Normals are finite everywhere and, where the distance is smooth, are the unit direction of increasing distance. Compound, sampled-grid and particle-cloud shapes agree with the union, the interpolated samples and the spheres they are made of, and friction is that of the closest surface. A container added without a centre is centred on its box.",
 ["inputs", "configurations"], "all query points (inside, outside, on edges, at centres), shape parameters, positions and rotations",
 "No test covers the shapes.",
 ["sdf/sdfcollection.py", "sdf/sdfobject.py", "sdf/gridsdf.py"], [("local distance of each shape", "sdf/sdfcollection.py"), ("world transform and normals", "sdf/sdfobject.py")])

prop("C21", "Moving obstacles move rigidly",
 "An obstacle with linear and angular velocity advances its position by velocity times time step and its orientation by the rotation rate (2D angle; 3D world-frame rotation, kept at unit length), and converges to the exact rotation as steps are refined. The velocity it reports at a point is that of rigid motion about its centre, consistent with how its surface actually moves, and its rotation maps between frames invertibly without changing lengths. The container is static.",
 ["inputs", "histories"], "all velocities, angular velocities, orientations, time steps and step counts",
 "The rigid-body test file targets a removed API.",
 ["sdf/sdfobject.py", "utils/math_helpers.py"], [("kinematic update and point velocity", "sdf/sdfobject.py"), ("quaternion helpers", "utils/math_helpers.py")])

prop("C22", "Obstacle contact removes approach, obeys Coulomb, and nothing else",
 "At each grid node within the contact layer of an obstacle a step leaves no velocity into the obstacle relative to its surface velocity there, keeps separating motion, and reduces tangential slip by at most the friction coefficient times the normal correction, never reversing it; friction is the obstacle's local friction times the collider's multiplier. Nodes outside the layer and grids not listed are untouched. Contact never adds relative kinetic energy at a node, and several obstacles each act.",
 ["inputs", "configurations"], "all shapes, surface motions, frictions, node velocities, dimensions and grid lists",
 "No test covers contact.",
 ["forces/sdf_collider.py", "solvers/usl.py"], [("node projection and friction cone", "forces/sdf_collider.py"), ("node geometry", "solvers/usl.py: _get_nodes_sdfs")])

prop("C23", "Material stays inside the container and finite over long runs",
 "In runs with gravity and a container obstacle, at time steps within the critical limit, every particle stays inside the walls to within one grid cell and all state stays finite, for every law and both solvers, with the quadratic and cubic shape functions; nothing leaves the grid, and kinetic energy stays below the initial one plus the work of gravity. Material at rest under its own weight, pressed between walls or floating unloaded stays put: kinetic energy does not grow without a source.",
 ["histories", "inputs", "configurations"], "random columns and blocks of every law dropped or pushed in a container, over hundreds of steps",
 "No test runs more than one step.",
 ["solvers/usl.py", "solvers/usl_asflip.py", "forces/sdf_collider.py", "constitutive_laws/"], [("contact, stress response and stability clamps together", "solvers/*.py")])

prop("C24", "Gravity and damping add exactly their defined forces",
 "Gravity adds mass times the given acceleration to each listed body or grid and no other, so a free body accelerates uniformly; applying it on particles or on the grid gives the same motion. Local damping adds a force opposing the velocity sign, with the damping factor times the magnitude of the current force per component, so a zero factor changes nothing and damping never pushes along the motion. Force states are read at each step, so changing them between steps takes effect, and the forces on a body taking part in the run accumulate from zero every step.",
 ["inputs", "histories", "configurations"], "all accelerations, damping factors, body and grid lists, orders of registration, states",
 "No test covers forces.",
 ["forces/gravity.py", "forces/damping.py", "common/builder.py"], [("force hooks and state lookup", "forces/gravity.py, forces/damping.py")])

prop("C25", "Saving and loading reproduces the run exactly",
 "Loading a saved step returns a state and solver equal to the saved ones, bit for bit in every array and number, for any step number and any mix of steps saved; the files for different steps never overwrite one another, and loading one step never returns another. Continuing from a loaded state gives the same trajectory as never having stopped. Opening an output folder without overwrite keeps its files, with overwrite it starts empty, and nothing outside the folder is touched.",
 ["histories", "crash_points", "inputs"], "all sequences of saves, overwrites, reopenings and loads, scenes and step numbers",
 "No test covers saving or loading.",
 ["common/sim_io.py"], [("leaf serialisation keyed by step", "common/sim_io.py")])

prop("C26", "Generated particles fill the shape and nothing else",
 "Particles generated in a shape all lie strictly inside it, in regular and in random mode, in 2D and 3D, for any placement and rotation. Regular mode places the requested number per cell, rounded up to a full lattice, at uniform spacing aligned with the grid and includes every such point that is inside the shape within the bounds, so the particle volume approximates the shape's volume; random mode is reproducible from its key and keeps exactly the inside part of the sample.",
 ["inputs", "configurations"], "all shapes, placements, bounds, cell sizes, particles per cell and keys",
 "No test covers generation.",
 ["utils/generate_body.py"], [("candidate lattice and rejection", "utils/generate_body.py")])

prop("C27", "Stress and strain measures are the defined invariants",
 "Pressure, deviatoric stress, von Mises stress, volumetric, deviatoric and Hencky strain, strain rate, spin, void ratio, solid fraction and inertial number equal their definitions for every tensor, single or stacked; scalar measures are unchanged by rotation, and splits recombine to the original. Hencky strain of any stretch and rotation is minus the logarithm of the left stretch, and rebuilding stress from pressure and shear gives back that pressure and shear. The derived quantities reported by material points (density, pressure, shear stress, strains, kinetic energy) agree with them.",
 ["inputs"], "all tensors and stacks, including near-zero, degenerate and rotated ones",
 "No test calls most of these; two of them could not run at all.",
 ["utils/math_helpers.py", "material_points/material_points.py"], [("tensor helpers", "utils/math_helpers.py"), ("derived properties", "material_points/material_points.py")])

prop("C28", "Simulations are differentiable with correct gradients",
 "Forward- and reverse-mode derivatives of the stress updates, the solver steps, contact, distances and element tests with respect to material parameters, initial state and loading are finite and equal finite differences wherever the result is smooth, including through plastic return, loops of several steps, and obstacle contact. Robust inverses and norms return the exact value away from singularity and finite values and derivatives at it.",
 ["inputs", "histories", "programs"], "all parameters and states away from kinks, all laws, both solvers",
 "No test takes a derivative.",
 ["constitutive_laws/", "solvers/", "utils/math_helpers.py", "sdf/"], [("safe inverses and norms", "utils/math_helpers.py"), ("automatic differentiation through the step", "solvers/*.py")])

prop("C29", "Grids cover the requested domain at the requested spacing",
 "A grid spans the requested box plus the padding on every side, with nodes exactly one cell apart, enough nodes that every point of the box (when its size is a multiple of the cell size) lies within the padded nodes, and no dropped node from rounding. Node positions, node order, node counts and the per-node arrays agree with one another and with the order used when transferring particles.",
 ["inputs", "configurations"], "all origins, extents, cell sizes, paddings and dimensions",
 "The grid test file fails to import today.",
 ["grid/grid.py", "shapefunctions/mapping.py"], [("grid size and node coordinates", "grid/grid.py"), ("node hashing", "shapefunctions/mapping.py")])

prop("C30", "Exported visualisation files hold the simulated data",
 "Each exported particle file contains every particle's position (padded to 3D), the requested property, a radius whose disc or ball has the particle's initial volume (scaled on request), and the time if given, one file per label and step. An exported obstacle surface lies on the obstacle's zero level set within the sampling resolution, and the exported domain box spans the grid's corners plus one cell. The live viewer receives the same particles, surfaces and box under the same rules (its second axis is flipped in 2D).",
 ["inputs", "configurations"], "all particle states, properties, labels, steps, shapes, resolutions and dimensions",
 "No test covers export.",
 ["common/vtk_io.py", "common/rerun.py"], [("particle, domain and surface writers", "common/vtk_io.py, common/rerun.py")])

prop("C31", "New material points start consistent and stress-free unless told otherwise",
 "Created material points keep every given field, and fill the rest consistently: zero velocity, force, stress and velocity gradient, identity deformation, volume of a cell divided by particles per cell in the dimension at hand, initial volume equal to volume, and mass equal to density times volume. The same defaults reach the scene when points are added through the builder, and scenes start at the requested time, step and step size.",
 ["inputs", "configurations"], "all subsets of given fields, dimensions, counts, densities",
 "Two of the three creation tests run, on a single 3D default.",
 ["material_points/material_points.py", "common/builder.py"], [("default construction", "material_points/material_points.py: create")])

prop("C32", "The unified inertial Cam Clay law joins Cam Clay and inertial flow",
 "Along loading paths of moderate increments the unified elasto-plastic-inertial law responds elastically inside the Cam Clay ellipse (pressure exponential in volumetric strain, stress and elastic strain rotating with the material), and otherwise ends on the ellipse whose friction is that of its current inertial number, with an unchanged deviatoric direction, associated plastic volume change, and a specific volume on the combined surface of critical line, swelling line and inertial dilation. Without inertia the response does not depend on the rate, is isotropic and agrees with Modified Cam Clay to the order of the increment. Sustained shear at constant volume ends at the inertial steady state: friction and volume given by the inertial number. A state created from pressure, over-consolidation and shear has them, with the density of its swelling line.",
 ["inputs", "histories", "configurations"], "all materials, initial pressures, over-consolidation ratios and shear, loading directions and rates, with increments up to 0.1 kappa and inertial volume change that is small against kappa within an increment",
 "The law has no tests; its return mapping iterates to a state that only the equations over whole paths pin down.",
 ["projects/unified_elasto_plastic_inertial_mcc/UEPI_MCC.py"], [("return mapping", "projects/unified_elasto_plastic_inertial_mcc/UEPI_MCC.py: _update_stress"), ("initial state", "UEPI_MCC.py: create_state_from_ocr")],
 ["stress, critical pressure and inertial number after an update"])

prop("C33", "User-written forces, laws and obstacles take part like built-in ones",
 "A force written by the user has each of its four hooks called exactly once per step, each stage in the order the forces were given to the solver, with the step's time and step size; whatever a hook changes (obstacle motion, its own or another force's state, particle forces and velocities, law states, carried rigid bodies, nodal forces and momenta) acts in that same step on everything computed after that stage and persists, except particle forces and velocity gradients, which start every step from zero. A user-written law updates its body's stress and keeps its own history, with or without deformation reset. A user-written obstacle keeps its own state type and fields while moving with its velocity, and contact uses its own distance, the normal of that distance, its rigid motion and its local friction. Built-in parts alongside behave as if the user-written ones were built in.",
 ["configurations", "histories", "inputs"], "all hook contents, orders among built-in forces, solver schemes, dimensions, laws with and without reset, obstacles, rigid bodies, step counts",
 "No test defines a force, law or obstacle of its own.",
 ["forces/force.py", "solvers/usl.py", "solvers/usl_asflip.py", "sdf/sdfobject.py", "constitutive_laws/constitutive_law.py"],
 [("hook calls and threading of state", "solvers/usl.py, solvers/usl_asflip.py"), ("base classes", "forces/force.py, sdf/sdfobject.py, constitutive_laws/constitutive_law.py")])

prop("C34", "Rough floors and batches of collapses follow their own parameters",
 "A spectral signal has log-spaced wavelengths between the requested bounds, amplitudes falling with wavenumber by the Hurst exponent and scaled to the requested root mean square, phases spread by the key factor, and its value is the base plus the sum of its waves; populations built under vmap have each member's own signal. A rough floor is flat before its start, ramps its bumps up over the transition width, follows the signal up to its end and restarts it past the end; the reported distance is the height over that surface, the normal is perpendicular to it, friction follows its own signal and stays positive, and the bounds contain the surface. A collapse starts from the prescribed column under lithostatic stress; floors, frictions and tilt given per member act in a batched (vmapped) run exactly as when that member is run alone, at the requested output times, with contact and gravity as in a dense reference step, and no grain sinks through the floor; exported files hold each member's own floor and grains.",
 ["inputs", "configurations", "histories"], "all signals (harmonics, Hurst exponents, wavelengths, heights, phases), floor extents, frictions, tilts, batch sizes, laws and resolutions",
 "No test touches the rough floor or runs a batch of simulations.",
 ["projects/lorentz_collapse/floor.py", "projects/lorentz_collapse/collapse_setup.py", "solvers/usl_asflip.py"],
 [("spectral signal and floor", "projects/lorentz_collapse/floor.py"), ("batched runs", "projects/lorentz_collapse/collapse_setup.py: run_with_trajectory")])

prop("C35", "Compressed trajectories read back as the simulation they were saved from",
 "A state saved in the compressed trajectory format (a single state, a batch, or a batch of trajectories; the whole state or one body's material points) can be read with the plain reader: exactly the state's arrays are in it, each under the path of its field, with its shape, in its own precision bit for bit or, when half precision is asked for, within half-precision rounding (integers always exact). Saving one body's points takes the requested body and stores stress in kilopascal; saving over an existing store leaves nothing of the old one; metadata, including nested arrays, reads back equal; nothing is written outside the store and the given state is not changed.",
 ["inputs", "configurations"], "all scene states, batch shapes, precisions, magnitudes within half precision, metadata, and repeated saves",
 "No test writes a trajectory.",
 ["projects/lorentz_collapse/save_data.py"], [("compressed store", "projects/lorentz_collapse/save_data.py: save_compressed_sim")])

prop("C36", "Parameters may be traced: batches equal their members",
 "Laws, initial states, obstacles, forces, whole scenes and element tests can be constructed inside jit and vmap from traced parameters (as calibration and parameter studies do), and give for every member of the batch what the same construction from plain numbers gives for that member alone; one solver can step a batch of states, each exactly as if alone. Members never influence one another, whatever their values.",
 ["inputs", "configurations", "histories"], "all materials, initial states, obstacles, loadings, batch sizes and members that differ arbitrarily; parameters the library declares as plain numbers excepted",
 "A test runs one case eagerly; a value-dependent branch or a shared quantity shows only when the parameters are traced and differ.",
 ["constitutive_laws/", "common/builder.py", "solvers/usl.py", "solvers/usl_asflip.py", "sdf/", "element_tests/triaxial_test.py"],
 [("law construction and update", "constitutive_laws/"), ("scene assembly and step", "common/builder.py, solvers/"), ("batched element tests", "element_tests/triaxial_test.py")])


out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
