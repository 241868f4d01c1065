"""Regenerates /verif/properties.jsonl (one place to edit titles/statements)."""
import json, os
BS, CO, SC, AD = ("cuprates_transport/" + f for f in
    ("bandstructure.py", "conductivity.py", "scattering.py", "admr.py"))
FM, FO = "cuprates_transport/fitting_admr_parallel_multiT.py", "cuprates_transport/fitting_admr_parallel_oneT.py"
SO = "cuprates_transport/fitting_admr_series_oneT.py"
P = []
def prop(id, title, statement, text, why, files, mech, over=("inputs",), observe=(), state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text},
              "why_tests_cant": why,
              "anchors": {"files": list(files),
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Band energy is the user's expression with its named parameters scaled",
 "For every dispersion expression, cell (a, b, c), set of named band parameters and wavevector, the band energy equals the user's expression with each name replaced by that parameter's own current value times the energy scale, in meV. Which value a name receives never depends on the order in which the parameters were written, added or edited.",
 "All real parameter values, energy scales, cells and wavevectors; several expressions, including an arbitrary (uninterpreted) one; parameter dictionaries in every order tried.",
 "Tests evaluate one default model with one parameter set whose keys happen to be in one order.",
 [BS], [("energy_velocity_definition / bandParameters / energy_func", BS)], observe=["energy_func"])
prop("C02", "Band velocity is the exact momentum gradient of the energy over hbar",
 "For every dispersion expression and every wavevector the three velocity components returned are the partial derivatives of the band energy with respect to kx, ky, kz divided by hbar, converted from meV Angstrom to m/s, with the current parameters. A direction the dispersion does not depend on has zero velocity with the shape of the input.",
 "All real parameter values, cells, wavevectors; several dispersions including quasi-1D/2D ones with one or two axis-independent directions.",
 "Tests compare a few numbers for one model; no test uses a dispersion independent of one axis or a different cell.",
 [BS], [("energy_velocity_definition / velocity_func", BS)], observe=["velocity_func"])
prop("C03", "Editing a band drops every derived Fermi-surface result and reads back exactly",
 "After any edit of a band parameter (single, whole set, energy scale, or a chemical-potential adjustment) no previously computed Fermi-surface quantity (points, weights, velocities, densities of states, mass, filling, doping) is still reported, and energies and velocities use the new value at once. Reading a parameter returns exactly the last value set, including zero, and setting an unknown name changes nothing.",
 "All edit histories up to the stated length, all real values including zero, every derived attribute.",
 "Tests edit at most one parameter once, never read a zero back and never look at stale derived data.",
 [BS], [("__setitem__, __getitem__, property setters, erase_Fermi_surface, diff_doping", BS)],
 over=("inputs", "histories"), observe=["attributes kf vf dkf dks dkz dos_k dos_epsilon mass n p"])
prop("C04", "Band filling and doping count occupied grid states exactly",
 "For every band, grid and number of Brillouin zones the filling is twice the fraction of grid states whose energy is at or below zero, divided by the number of zones spanned by the grid, the doping is one minus the filling, and the grid spans the stated momentum window symmetrically in all three directions. The per-plane variant applies the same rule plane by plane, and the doping of several bands is one minus the sum of their fillings.",
 "All energy landscapes on the grid (each grid energy an independent real), all cells, windows, zone counts; grid sizes within the bound; 1-3 bands.",
 "Tests look at one filling of one band; ties at zero energy, several bands and several zones never occur.",
 [BS], [("dispersion_grid, update_filling, doping, filling, doping_per_kz, module-level doping", BS)], observe=["n", "p"])
prop("C05", "Chemical-potential search ends at the root of doping minus target",
 "Whatever points the root search visits, adjusting the chemical potential to a target doping solves (doping at mu) = target over mu in [-10, 10] with the requested tolerance, and leaves every band involved at exactly the returned root. No other band parameter changes, and the single-band and multi-band versions agree.",
 "All targets, tolerances, roots and visiting orders of the root finder (arbitrary stub), all grid energies as functions of mu; 1-3 bands.",
 "No stable test runs the search.",
 [BS], [("diff_doping, set_mu_to_doping, dopingCondition, module-level set_mu_to_doping", BS)],
 over=("inputs", "histories"), observe=["band_params['mu']"])
prop("C06", "Triangulated Fermi surface: centred positions and area-preserving weights",
 "When the surface is triangulated in three dimensions, each vertex is placed at its true momentum (the grid origin at the lower corner of the momentum window), and each vertex weight is one third of the summed areas of the triangles touching it, so the weights are non-negative and sum to the total surface area. The energy level requested is the level triangulated, on a grid with the band's own resolution and momentum window.",
 "All vertex positions and cells (symbolic reals), meshes within the bound, all levels.",
 "Tests use one mesh; weights of vertices at different triangle counts, other cells or non-zero levels are never examined.",
 [BS], [("marching_cube", BS)], observe=["kf", "dkf"])
prop("C07", "Sliced Fermi surface: contours resampled at equal arc length with true weights",
 "When the surface is built from planar slices, each contour of each kz plane is resampled at equally spaced physical arc length without repeating its end point, and every point's weight is its physical in-plane segment length times the plane spacing. For a square cell the first-quadrant contour is completed by its three 90-degree rotations; for an orthorhombic cell positions and lengths use both lattice constants. Planes without any contour are skipped, wherever they occur, and the per-plane point counts match the points produced.",
 "All contour vertex positions (symbolic), cells, windows, numbers of contours per plane (0-2) and planes within the bound.",
 "Tests use one tetragonal band whose every plane has one contour; anisotropic cells, empty planes and multiple pockets are never exercised.",
 [BS], [("marching_square", BS)], observe=["kf", "dkf", "dks", "dkz", "number_of_points_per_kz_list"])
prop("C08", "Velocities, densities of states and mass on the surface follow their definitions",
 "For every discretised surface the stored velocity of each point is the band velocity at that point, the stored local density of states is 1/(hbar |v|) with all three components, the total density of states is the weighted integral 2/(2 pi)^3 of it over the surface per Brillouin zone, and the cyclotron mass is hbar/(2 pi) times the plane-averaged integral of ds over in-plane speed in units of the electron mass.",
 "All point positions, velocities, weights, plane counts (symbolic), both discretisation routes, all zone counts.",
 "Tests pin two mass/DOS numbers of one band with one Brillouin zone.",
 [BS], [("discretize_fermi_surface, dos_epsilon_func, mass_func", BS)], observe=["vf", "dos_k", "dos_epsilon", "mass"])
prop("C09", "Matthiessen's rule over exactly the requested scattering models",
 "For every ordered selection of scattering models the total lifetime at each state is the reciprocal of the sum of the rates of those models, each evaluated with its own arguments (momentum, velocity or energy) and counted as often as listed. The value does not depend on earlier evaluations and uses the current model parameters.",
 "All model selections of length 1-3 (with repetition and order), user-added models with momentum, velocity or energy arguments, all symbolic rates, momenta and velocities, 1-D and 2-D state arrays.",
 "Tests use isotropic plus one angular model, once.",
 [SC], [("tau_tot_func", SC)], over=("inputs", "configurations", "histories"), observe=["tau_tot_func"])
prop("C10", "Angular scattering rates follow their formula and are lattice-periodic",
 "For every momentum the isotropic, cos 2phi, cos 2phi times cos kz, and sin 2phi rates equal their documented formula with phi the in-plane angle of the momentum folded into the first Brillouin zone of the (possibly rectangular) lattice. They are unchanged by adding any reciprocal-lattice vector in the plane, are never negative and never exceed their amplitude.",
 "All momenta, lattice constants, amplitudes, exponents and integer reciprocal-lattice translations.",
 "Tests pin a couple of conductivities that mix everything; folding, anisotropic cells and the sine and kz variants are not covered.",
 [SC], [("phi_func, isotropic, cos2phi, cos2phi_coskz, sin2phi", SC)], observe=["isotropic", "cos2phi", "cos2phi_coskz", "sin2phi"])
prop("C11", "Density-of-states scattering rate follows the carrier's own speed",
 "The density-of-states scattering rate of a carrier is its amplitude times the local density of states at that carrier's velocity divided by the largest local density of states on the Fermi surface. This holds for every array of carriers, including states along trajectories away from the starting points, and the result has one value per carrier.",
 "All velocities (symbolic) in 1-D and 2-D arrays, all amplitudes, surfaces of 1-3 points.",
 "No test uses this model.",
 [SC], [("gamma_dos_func", SC)], observe=["gamma_dos_func", "tau_tot_func"])
prop("C12", "Magnetic-field vector always matches the latest amplitude and angles",
 "After construction and after every sequence of edits of amplitude, azimuth and polar angle, in any order, the field vector is amplitude times (sin theta cos phi, sin theta sin phi, cos theta) of the current values in degrees. It cannot be set to anything else directly.",
 "All real amplitudes and angles, all edit sequences up to the stated length.",
 "Tests set one field direction at construction.",
 [CO], [("B_func and the Bamp/Bphi/Btheta/B_vector properties", CO)], over=("inputs", "histories"), observe=["B_vector"])
prop("C13", "Carriers obey the time-reversed Lorentz force with correct units",
 "At every state the rate of change of momentum used to move carriers is (e/hbar) v x B traced backwards in time, in inverse Angstrom per picosecond, computed from the band velocity at the current momentum of that same carrier. It is perpendicular to both the field and the velocity, and vanishes without a field.",
 "All momenta, velocities (uninterpreted band), fields; 1-3 carriers.",
 "Tests only see integrated conductivities of one configuration.",
 [CO], [("movement_equation, crossProductVectorized", CO)], observe=["movement_equation"])
prop("C14", "Trajectories keep each carrier's own history from its starting point",
 "With a field on, every carrier's stored trajectory starts at its own Fermi-surface point, is the solution delivered by the integrator for that carrier on the transport time grid with the requested tolerances, and its stored velocities are the band velocities along that trajectory. With the field off the stored state is the Fermi-surface point and velocity themselves.",
 "Arbitrary integrator output (stub), 1-3 carriers, 1-4 time steps, any field including zero.",
 "Tests never look at trajectories; carriers or axes could be swapped without changing a symmetric result much.",
 [CO], [("solve_movement", CO)], observe=["kft", "vft"])
prop("C15", "Survival exponent integrates the scattering rate along each trajectory",
 "With a field on, the exponent of each carrier at time t is the sum of the scattering rate along its own trajectory times the time step, starting from exactly zero at t = 0, non-decreasing. With the field off it is the scattering rate at the starting point; velocity- and energy-dependent models receive that trajectory's velocities and that energy.",
 "All rates (uninterpreted model), trajectories, time steps and energies; 1-3 carriers, 1-4 steps.",
 "Tests use one isotropic-plus-angular model and look only at the final conductivity.",
 [CO], [("t_o_tau_func", CO)], observe=["t_o_tau", "tau_tot"])
prop("C16", "Zero-temperature conductivity tensor is the discretised Chambers integral",
 "For every surface, trajectory set and number of Brillouin zones the conductivity is (2 e^2 / (2 pi)^3) per zone times the sum over surface points of weight times local density of states times initial velocity (first index) times the time integral of velocity damped by the survival exponent (second index), in SI units. Without a field it is the relaxation-time expression, which is symmetric and has non-negative quadratic form.",
 "All symbolic weights, densities of states, velocities, exponents, time steps; 1-3 points, 1-3 times; field on and off.",
 "Tests pin single components of a symmetric configuration, blind to index transpositions and scale in other configurations.",
 [CO], [("velocity_product, sigma_epsilon, chambers_func", CO)], observe=["sigma"])
prop("C17", "Finite-temperature transport: thermal window, weights and coefficients",
 "At finite temperature the energy window is symmetric and evenly sampled, and ends exactly where minus the derivative of the Fermi function has dropped to the requested fraction of its peak, after any sequence of edits of temperature, sample count or cut-off. The conductivity, thermoelectric and thermal tensors are the window sums of spacing times minus that derivative times 1, epsilon/(-eT) and epsilon^2/(e^2 T) times the conductivity at that energy.",
 "All temperatures, cut-offs, symbolic per-energy conductivities, 2-4 samples, edit sequences up to the stated length.",
 "Tests pin a few numbers at one temperature and never edit the window.",
 [CO], [("dfdE, energyCutOff, T/N_epsilon/dfdE_cut_percent setters, integrand_coeff, chambers_func", CO)],
 over=("inputs", "histories"), observe=["epsilon_array", "sigma", "alpha", "beta"])
prop("C18", "A transport run uses its own band copy and the data of the right energy",
 "A transport computation never modifies the band object it was built from. At finite temperature the conductivity at each energy is computed from the surface, trajectories and lifetimes of that same energy, and the band is left on the zero-energy surface afterwards; repeating a run with unchanged settings gives the same result, at zero and finite temperature.",
 "Arbitrary discretiser/integrator outputs per energy (stubs), 2-3 energies, run sequences up to 2, field on/off.",
 "Tests run once per object and never compare the caller's band before and after or mix energies.",
 [CO], [("__init__ deepcopy, runTransport", CO)], over=("inputs", "histories"), observe=["bandObject", "sigma"])
prop("C19", "Integration time window follows the longest lifetime and the requested steps",
 "Every transport run integrates from time zero over eight times the longest lifetime on the Fermi surface with the requested number of equal steps, for the current parameters. Changing the number of steps at any moment, before or after a run, gives the same grid as having asked for it at the start, and the reported extreme scattering rates are those of the surface.",
 "All lifetimes (symbolic), 1-3 surface points, step counts 1-6, edits before/after runs.",
 "Tests use the default step count and one order of operations; setting it before a run crashed.",
 [CO], [("reset_time, N_time setter, tau_total_max, tau_total_min, runTransport", CO)], over=("inputs", "histories"), observe=["time_array", "dtime", "dtime_array", "time_max", "gamma_tot_max", "gamma_tot_min"])
prop("C20", "Cyclotron-frequency-lifetime product is dimensionless and grows with lifetime",
 "The reported omega_c tau of each Fermi-surface point equals the magnetic field times e, times in-plane speed, times lifetime at that point, over hbar times in-plane momentum. It is proportional to field and lifetime.",
 "All momenta, velocities, fields and lifetimes (symbolic), 1-3 points.",
 "One test pins one number, which is itself wrong.",
 [CO], [("omegac_tau_func", CO)], observe=["omegac_tau_k"])
prop("C21", "ADMR map entry (phi, theta) is the zz resistivity of the summed conductivities",
 "For every list of bands and every grid of field angles the entry at (phi, theta) is the zz element of the inverse of the sum over all bands of the conductivity tensors computed at exactly those angles. The angle grid runs from the minimum to the maximum angle inclusive with the requested step; when the step does not divide the range it ends with the first angle beyond the maximum.",
 "Arbitrary conductivity tensors per band and angle (uninterpreted), 1-3 bands, grids up to 3 x 4 angles, polar grids of up to 40 steps that divide the range or not.",
 "The angle-scan test is not stable on this tree; only construction is tested.",
 [AD], [("runADMR", AD)], observe=["rhozz_array", "Btheta_array"])
prop("C22", "Normalised ADMR is relative to the interpolated value at the reference angle",
 "For each azimuth the normalised curve is that azimuth's resistivity divided by its own value at the reference polar angle, linearly interpolated between grid angles when the reference is not on the grid, so it equals one there. The normalisation never changes the un-normalised map.",
 "All positive resistivities (uninterpreted), all reference angles inside the scan, grids up to 3 x 4.",
 "No stable test computes a normalised curve.",
 [AD], [("runADMR normalisation", AD)], observe=["rzz_array"])
prop("C23", "Total filling and hole doping of an ADMR run are those of its current bands",
 "After any number of runs on the same object, the reported total filling is the sum over its bands of their current filling and the reported total hole doping is one minus it. Re-running does not change them when the bands did not change.",
 "1-3 bands with arbitrary fillings, 1-3 runs with changes in between.",
 "No test reads these after a run.",
 [AD], [("update_total_doping", AD)], over=("inputs", "histories"), observe=["total_filling", "total_hole_doping"])
prop("C24", "The ADMR data file has one correctly labelled column per quantity",
 "The written table has one row per polar angle and one column per header label, in the same order: angle, resistivity for each azimuth in scan order, field amplitude, energy scale, each band parameter other than t under its own name, and the three resolutions. Every numeric column holds the quantity its label names.",
 "All angles, resistivities, amplitudes, parameter sets and values, 1-3 azimuths, 1-3 polar angles, with and without an explicit file name.",
 "Tests never write the file.",
 [AD], [("fileADMR", AD)], observe=["np.savetxt arguments"])
prop("C25", "Fit angle grid contains every requested angle of the matching temperature",
 "For every data dictionary the azimuths fitted at a temperature are exactly those listed for it, and the polar grid runs from the smallest minimum to the largest maximum inclusive with the smallest requested step (when that step does not divide the range, with the whole number of equal steps closest to it). The reference angle is the one given in the data entries.",
 "All minima, maxima and steps (symbolic; dividing the range or not), 1-5 azimuths, 1-3 temperatures.",
 "The fitting test is not stable on this tree and does not check the grid.",
 [FM], [("FitAnglesADMR.create_angles", FM)], observe=["Bphi_array", "Btheta_array", "Btheta_norm"])
prop("C26", "Measured data are sorted, interpolated and normalised per azimuth",
 "For every data table, row order and column choice, the fitted data at each grid angle are the linear interpolation of that azimuth's own file at that angle, the normalised data are divided by the interpolated value at the reference angle, and the absolute data are multiplied by the file's scale factor. The result does not depend on the order of rows in the file.",
 "All table contents (symbolic) with 2-3 rows in any order, columns in any position, 1-2 azimuths.",
 "No stable test loads data.",
 [FM], [("DataADMR.load_data", FM)], observe=["rhozz_data_matrix", "rzz_data_matrix"])
prop("C27", "Every free fit parameter reaches exactly the simulations it is declared for",
 "For every set of free parameters, the value proposed by the optimiser for a (temperature, band, name) entry is used by the simulation of that temperature and band - whether the name is a band, scattering, field, energy-scale or other top-level parameter - and by no other; an entry declared for all temperatures reaches all of them. Values equal to zero are honoured, bounds are paired with their own parameter, and the caller's dictionaries are never modified.",
 "All values including zero, 1-2 temperatures, 1-2 bands, labels of every kind and declaration order.",
 "The fitting test is not stable and fits one scattering parameter.",
 [FM], [("Fitness.__init__, update_conditions, update_parameters, compute_fitness, SimADMR.update_params", FM)],
 over=("inputs", "configurations"), observe=["bounds", "condObject/bandObject attributes at simulation time"])
prop("C28", "Fit objective is the sum of squared residuals over every data point",
 "For every candidate the objective is the sum over all temperatures, azimuths and polar angles of (data minus simulation) squared, using normalised curves when requested and absolute resistivities otherwise, with each temperature's simulation evaluated at that temperature's own angles and reference. It is zero exactly when every point agrees, and repeated evaluation with the same candidate gives the same value.",
 "Arbitrary simulated and measured values (symbolic), 1-2 temperatures with different grids, both modes, repeated evaluations.",
 "No stable test evaluates an objective.",
 [FM], [("Fitness.compute_fitness, SimADMR.compute_rhozz", FM)], over=("inputs", "histories"), observe=["return value"])
prop("C29", "Single-temperature fit: data cut, parameter routing and objective",
 "In the single-temperature fit the azimuths and polar grid are those of the chosen temperature up to the smallest angular cut, data are interpolated and normalised at zero angle and rescaled by the zero-angle resistivity, and the objective is the sum of squared residuals (absolute ones in milliohm centimetre). Every free parameter, band or scattering or field, is used by the simulation that produces the residual.",
 "All data values, angles, cuts, candidate values (symbolic), 1-2 azimuths, 2-3 polar angles.",
 "No stable test touches this fitter.",
 [FO], [("FittingADMRParallel: load_* , generate_admr, compute_diff2", FO)], observe=["compute_diff2"])
prop("C30", "Objects do not share or leak parameters through the caller's dictionaries",
 "Parameters handed to a band or a conductivity object, at construction or by later assignment, are copied: editing one object never changes another object built from the same dictionary, and later changes to the caller's dictionary do not alter an object. Default arguments are never altered by use.",
 "All values, construction/assignment/edit sequences up to the stated length, 2 objects.",
 "Tests build one object per dictionary.",
 [BS, SC, CO], [("__init__ and property setters", BS), ("scattering_params setter", SC)], over=("inputs", "histories"), observe=["band_params", "scattering_params"])
prop("C31", "Trajectory integration error stays within the requested tolerance",
 "For every field, band and time window the numerically integrated trajectories deviate from the exact orbits by no more than the requested relative and absolute tolerances allow, so the carrier energy is conserved to that accuracy.",
 "All smooth bands, fields and time windows.",
 "Tests use one band and never check energy conservation.",
 [CO], [("solve_movement via scipy odeint (LSODA, compiled Fortran)", CO)], observe=["kft"])
prop("C32", "A fit returns and saves the optimiser's best candidate for any worker schedule",
 "Whatever the order in which candidates are evaluated and however they are split between worker processes, each evaluation returns the objective of its own candidate and nothing else, and the fit ends with the candidate the optimiser chose: the returned object or dictionary, its final simulation and the saved file all hold that candidate's parameters, and every other parameter keeps its initial value. The caller's dictionaries are not modified.",
 "All candidate values including zero; every order and every split over two workers of a generation of 2-3 candidates; any candidate as the best one; both parallel fits and the serial one.",
 "Tests do not run a parallel fit to its end; one schedule would not settle it.",
 [FM, FO], [("fit_admr_parallel", FM), ("fit_admr_parallel, save_member_to_json", FO), ("FittingADMR.runFit", "cuprates_transport/fitting_admr_series_oneT.py")], over=("inputs", "schedules"), observe=["returned fitness object", "saved JSON"])
prop("C33", "Recomputing a band after settings changes equals a freshly built band",
 "After any sequence of changes of a band's settings (cell, momentum window, resolution, number of zones, discretisation route, rough mesh, parameters, energy scale, chemical potential), with the surface computed at any energy in between, recomputing gives the same surface points, weights, velocities, densities of states, mass, filling, doping, energies and velocities as a new band built with those settings.",
 "Every single change and the listed pairs of changes (all ordered pairs in the thorough tier), with runs before, between and after; all real values of every setting that is a number; arbitrary dispersions.",
 "Tests build a band once and compute it once; a result kept from an earlier setting never shows.",
 [BS], [("runBandStructure, discretize_fermi_surface, dispersion_grid, bandParameters, setters", BS)], over=("inputs", "histories"),
 observe=["kf vf dkf dks dkz dos_k dos_epsilon mass n p"])
prop("C34", "Transport results depend on the current settings only, not on earlier runs",
 "After any sequence of changes of a transport object's settings (field, temperature, time steps, energy samples, cut-off, scattering rates and models, solver tolerances, parameters of its band), with runs in between, the next run gives the same conductivities, orbits, velocities, lifetimes, times and coefficients as a new object built with those settings.",
 "Every single change and the listed pairs (all ordered pairs in the thorough tier) plus a longer scan, with a run before, between and after; all real field values, rates, temperatures and times; arbitrary surfaces and orbits.",
 "Tests run an object once or sweep one angle; a value kept from an earlier run never shows.",
 [CO, SC], [("runTransport, chambers_func, setters of Bamp/Btheta/Bphi/T/N_time/N_epsilon", CO), ("tau_tot_func", SC)], over=("inputs", "histories"),
 observe=["sigma, kft, vft, t_o_tau, time_array, omegac_tau_k"])
prop("C35", "Figures show the computed numbers and leave the computation as it was",
 "Every figure draws the quantities it names: curves of the sweep carry their own azimuth and the stored resistivities, the right-hand axis and absolute curves are in milliohm centimetre, orbits, velocities, surface points, arrows, contours and rates are those of the carrier, plane or angle shown, tables list the current parameters, and fit figures show the measured and the simulated curve of every azimuth. Drawing changes no result, setting or dictionary, and a saved file holds every page once.",
 "All stored values (surfaces, orbits, rates, energies, cells, windows, resistivities, data, candidates) symbolic; 1-7 azimuths in any order, 1-3 temperatures, 1-2 bands and contours, both modes of every fit.",
 "No stable test looks at a figure.",
 [BS, CO, AD, FM, FO, SO], [("figMultipleFS2D, figDiscretizeFS2D, figDiscretizeFS3D", BS), ("figScatteringColor, figScatteringPhi, figOnekft, figOnevft, figCumulativevft, figdfdE, figParameters", CO),
 ("figADMR", AD), ("Fitness.fig_compare", FM), ("FittingADMRParallel.fig_compare", FO), ("FittingADMR.fig_compare", SO)],
 over=("inputs", "configurations", "histories"), observe=["arguments of the drawing calls", "attributes before and after"])
prop("C36", "Files are named after their run and a saved fit loads back as the same fit",
 "The automatic name of a data file or figure states the doping, temperature, field, energy scale, every band parameter (other than the unit t) and every band of the run it belongs to, with the stated digits, so runs that differ in them do not share a file; given names and folders are used as they are. A fit saved to JSON is named like its figure, and loaded by a fit that started from any other settings it restores the parameters, angles, data, simulation and objective of the fit that was saved.",
 "All values of all named quantities and settings (symbolic); sweeps with 1-2 bands; fits that differ from the saved one in any single setting, in all of them, in angles, azimuths or temperature of the data.",
 "No stable test saves or loads a fit or checks a file name.",
 [AD, FO, SO], [("file_name_func, fileADMR, figADMR", AD), ("save_member_to_json, load_member_from_json, fig_compare", FO), ("save_member_to_json, load_member_from_json, fig_compare", SO)],
 over=("inputs", "configurations", "histories"), observe=["paths handed to savetxt, PdfPages, open", "member, simulation and objective after loading"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    print(len(P))
