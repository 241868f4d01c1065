"""writes DESIGN.md: prose below + one row per property from the check modules + the seeded bugs"""
import ast, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from seeds import SEEDS

HOW = {
 "C01": ("energy_func of the real class on symbolic parameters and wavevectors", "the expression evaluated by hand in the same exact terms, names bound to scale x own value"),
 "C02": ("velocity_func (sympy's generated code executed symbolically)", "hand-derived gradient over hbar in SI units, shape of the input"),
 "C03": ("every edit history, with derived attributes filled before each edit", "reads equal a shadow dictionary; every derived attribute is absent; energies/velocities equal those of the shadow parameters"),
 "C04": ("update_filling/doping/doping_per_kz on a grid whose energies are free unknowns", "indicator sums written from the definition"),
 "C05": ("set_mu_to_doping (both) with an adversarial root finder", "objective values = doping at mu minus target; bracket, tolerance and final mu; nothing else changed"),
 "C06": ("marching_cube with an arbitrary mesh", "positions on the symmetric window; weights = third of adjacent triangle areas (cross products)"),
 "C07": ("marching_square with arbitrary contours per plane", "equal-arc-length points along the physical polyline, segment lengths, rotations, counts"),
 "C08": ("discretize_fermi_surface, dos_epsilon_func, mass_func", "definitions in SI units from the uninterpreted band velocity"),
 "C09": ("tau_tot_func over uninterpreted and built-in models", "1/sum of the listed rates at the listed arguments"),
 "C10": ("the built-in rates at rho,phi + reciprocal vectors", "the documented formula with the in-zone angle; 0 <= rate <= amplitude"),
 "C11": ("gamma_dos_func", "amplitude x (1/hbar|v|) / max(dos_k), one value per carrier"),
 "C12": ("property setters", "spherical components of a shadow (B, phi, theta)"),
 "C13": ("the function handed to odeint, called on arbitrary states", "time-reversed Lorentz force; orthogonality as separate assertions"),
 "C14": ("solve_movement with an arbitrary flow", "flow(start point, time grid) per carrier, band velocity along it"),
 "C15": ("t_o_tau_func", "sum of rate x dtime along own trajectory (first term dropped to start at zero)"),
 "C16": ("runTransport at T = 0 and chambers_func alone", "Chambers sum, all nine components; symmetry and non-negative form of the zero-field tensor"),
 "C17": ("window setters, dfdE, chambers_func, complete runs", "cut-off equation by inversion of the Fermi derivative; window sums"),
 "C18": ("complete runs, run histories with edits", "fresh object with the same settings; snapshot of the caller's band"),
 "C19": ("runs and N_time edits in any order; np.arange/linspace counts also under directed rounding", "eight longest lifetimes, requested number of steps"),
 "C20": ("omegac_tau_func", "e B v tau / (hbar k) in the plane"),
 "C21": ("runADMR with uninterpreted conductivities; grid counts under rounding of the maximum", "zz of the inverse by cofactors"),
 "C22": ("runADMR normalisation", "linear interpolation written case by case"),
 "C23": ("ADMR construction, updates, scans", "sum of current fillings"),
 "C24": ("fileADMR's arguments to np.savetxt", "label -> quantity table built from the inputs"),
 "C25": ("FitAnglesADMR", "set of azimuths, min/max/step of the entries"),
 "C26": ("DataADMR.load_data on arbitrary tables", "per-file sorted linear interpolation written by cases"),
 "C27": ("Fitness with recorded simulations", "shadow routing table: which object holds which value when simulated"),
 "C28": ("Fitness.compute_fitness", "sum of squared residuals from uninterpreted simulations"),
 "C29": ("both single-temperature fitters", "cut, interpolation, normalisation, routing and residual sums written from the definition"),
 "C30": ("two objects and the caller's dictionaries under every short history", "shadow copies"),
 "C32": ("both parallel fits and the serial one, symbolic optimiser/pool; the schedule (order, split) is enumerated by forking, the candidates are symbolic", "objective of each candidate on a fresh fit; best candidate everywhere at the end"),
    "C33": ("the whole of a band's computation after every sequence of setting changes, mesh finders stubbed by a fixed mesh", "a new band of the same class built with the current settings: same numbers and same questions asked of the mesh finders"),
    "C34": ("runTransport after every sequence of setting changes with runs in between, ODE solver arbitrary", "a new object built with the current settings and band"),
    "C35": ("every figure method of bands, transport, sweeps and the three fits, with drawing calls recorded (matplotlib replaced by a recorder, no rendering); values formatted into text stay linked to the symbolic number they show", "the stored results and settings; what is drawn is matched point for point, the unit factors and ranges are restated"),
    "C36": ("file_name_func, fileADMR, figADMR, save/load of members in both single-temperature fits; numbers in names stay linked to the symbolic value and carry their format", "the run's own quantities; the fit that was saved (its parameters, restated simulation and objective)"),
}
HOW.update(__import__("design_more").HOW if os.path.exists(os.path.join(HERE, "tools", "design_more.py")) else {})


def consts(i):
    out = {}
    for n in ast.parse(open(os.path.join(HERE, "checks", i + ".py")).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("BOUNDS", "OUTSIDE", "ASSUMPTIONS"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    text = open(os.path.join(HERE, "tools", "design_head.md")).read()
    rows = []
    for p in props:
        i = p["id"]
        if i not in HOW:
            continue
        c = consts(i)
        rows.append("### %s %s\n- Executes: %s.\n- Oracle: %s.\n- Bounds: %s.\n- Outside: %s.\n- Assumes: %s.\n- Beyond the tests: %s\n" % (
            i, p["title"], HOW[i][0], HOW[i][1], c["BOUNDS"], c.get("OUTSIDE") or "nothing beyond the bounds and the general limits above",
            "; ".join(c.get("ASSUMPTIONS", [])) or "nothing further", p["why_tests_cant"]))
    seeds = ["| seed | property = check that catches it | needs |", "|---|---|---|"]
    for k in sorted(SEEDS):
        seeds.append("| %s | %s | %s |" % (k, SEEDS[k]["property"], SEEDS[k]["needs"].replace("|", "/")))
    open(os.path.join(HERE, "DESIGN.md"), "w").write(text.replace("@PROPERTIES@", "\n".join(rows)).replace("@SEEDS@", "\n".join(seeds)))


if __name__ == "__main__":
    main()
