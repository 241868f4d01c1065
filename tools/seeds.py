"""Planted bugs: edits against /repo's HEAD, what they need to show, and a demonstration each (see plant.py)."""
PRELUDE = '''import os, sys, io, contextlib, tempfile, copy
sys.path.insert(0, os.getcwd())
import numpy as np
from numpy import pi
from cuprates_transport.bandstructure import BandStructure
from cuprates_transport import bandstructure as BS
from cuprates_transport.conductivity import Conductivity
from cuprates_transport.admr import ADMR
from scipy.constants import hbar, elementary_charge as e, physical_constants
meV = physical_constants["electron volt"][0] * 1e-3


def params(**more):
    p = dict(band_name="LargePocket", a=3.75, b=3.75, c=13.2, energy_scale=190.,
             band_params={"mu": -0.826, "t": 1., "tp": -0.14, "tpp": 0.07, "tz": 0.07},
             resolution=[7, 7, 3], k_max=[pi, pi, 2 * pi], N_time=60, T=0, Bamp=45, parallel=False,
             scattering_models=["isotropic", "cos2phi"],
             scattering_params={"gamma_0": 15.1, "gamma_k": 66., "power": 12})
    p.update(more)
    return p


def conductor(run=True, **more):
    p = params(**more)
    band = BandStructure(**p)
    band.march_square = more.get("march_square", True)
    if run:
        band.runBandStructure()
    return Conductivity(band, **p)


def quiet(f, *args, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*args, **kw)


def need(ok, what):
    if not ok:
        print("BROKEN:", what)
        sys.exit(1)


def same(x, y, what, tol=1e-9):
    x, y = np.asarray(x, float), np.asarray(y, float)
    need(x.shape == y.shape and np.allclose(x, y, rtol=tol, atol=tol * np.max(np.abs(y))), what + ": %s instead of %s" % (x.ravel()[:4], y.ravel()[:4]))


'''
FIT = '''
from cuprates_transport import fitting_admr_parallel_multiT as M


def member(**more):
    p = params(Btheta_min=0, Btheta_max=90, Btheta_step=15, Bphi_array=[0, 45], fixdoping=2, data_T=25, data_p=0.24, **more)
    del p["parallel"]
    return p


tmp = tempfile.TemporaryDirectory()


def data(name, theta, rho):
    path = os.path.join(tmp.name, name)
    np.savetxt(path, np.column_stack([theta, rho]))
    return path


'''
SEEDS = {}


def seed(name, property, edits, needs, breaks, demo, count=1):
    SEEDS[name] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, count=count)


seed("c01_case_order", "C01",
     [("bandstructure.py", "               in sorted(self._band_params.items())]\n        return abc",
       "               in sorted(self._band_params.items(), key=lambda item: item[0].lower())]\n        return abc")],
     "band parameter names that differ in the case of their first letters, so that the two orderings disagree (e.g. t and Z)",
     "the values are passed in a case-insensitive order while the compiled function expects the case-sensitive one: parameters swap",
     '''band = BandStructure(**params(band_params={"t": 1., "Z": 0.3}, band_model="t*cos(a*kx) + Z*cos(c*kz)"))
same(band.energy_func(0.2, 0.1, 0.3), 190 * (np.cos(3.75 * 0.2) + 0.3 * np.cos(13.2 * 0.3)), "energy")
''')

seed("c02_constant_velocity", "C02",
     [("bandstructure.py", "            if v == 0:\n", "            if sp.Symbol(k_list[i]) not in v.free_symbols:\n")],
     "a dispersion linear in one momentum component (its velocity along that direction does not depend on that component)",
     "the velocity along that direction is replaced by zero",
     '''band = BandStructure(**params(band_params={"t": 1., "w": 0.3}, band_model="t*cos(a*kx) + w*kz*cos(b*ky)"))
kx, ky, kz = np.array([0.1, 0.2]), np.array([0.3, 0.1]), np.array([0.05, 0.02])
v = band.velocity_func(kx, ky, kz)
same(v[2], 190 * 0.3 * np.cos(3.75 * ky) * meV / hbar * 1e-10, "vz")
same(v[0], -190 * 3.75 * np.sin(3.75 * kx) * meV / hbar * 1e-10, "vx")
''')

seed("c03_small_edit_keeps_surface", "C03",
     [("bandstructure.py", "            self.erase_Fermi_surface()\n            self._band_params[key] = value",
       "            if not np.isclose(value, self._band_params[key]):\n                self.erase_Fermi_surface()\n            self._band_params[key] = value")],
     "an edit of a band parameter smaller than the tolerance of np.isclose (e.g. a finite-difference step of a fit)",
     "the Fermi surface of the previous parameters is kept although the parameter has changed",
     '''band = BandStructure(**params(march_square=True))
band.runBandStructure()
band["tz"] = band["tz"] * (1 + 2e-6)
need(band.kf is None and band.p is None, "stale Fermi surface after an edit")
''')

seed("c04_strict_occupation", "C04",
     [("bandstructure.py", "        self.n = 2 * np.sum(np.greater_equal(0, energy))", "        self.n = 2 * np.sum(np.greater(0, energy))")],
     "grid states whose energy is exactly zero (a nodal plane of the dispersion on the grid)",
     "states at zero energy are not counted as occupied by the total filling",
     '''band = BandStructure(**params(band_params={"t": 1.}, band_model="t*(a*kx)**2"))
need(band.dispersion_grid([3, 3, 3])[0][1, 0, 0] == 0, "demo: no state at zero")
same(band.update_filling(3, 3, 3), 2. / 3, "filling")
''')

seed("c05_bands_left_behind", "C05",
     [("bandstructure.py", "    mu = optimize.brentq(dopingCondition, -10, 10, args=(p_target ,bandIterable), xtol=ptol)\n    for band in bandIterable:\n        band[\"mu\"] = mu",
       "    optimize.brentq(dopingCondition, -10, 10, args=(p_target ,bandIterable), xtol=ptol)")],
     "a root search whose last visited chemical potential is not the root it returns",
     "the bands keep the last trial chemical potential instead of the root",
     '''p1, p2 = params(), params()
bands = [BandStructure(**p1), BandStructure(**p2)]
for band in bands:
    fill = band.update_filling
    band.update_filling = lambda fill=fill: fill(15, 15, 3)
real, seen = BS.optimize.brentq, []


def brentq(f, a, b, args=(), **kw):
    root = real(f, a, b, args=args, **kw)
    f(0.37, *args)          # any search may evaluate further points before it returns
    seen.append(root)
    return root


BS.optimize.brentq = brentq
quiet(BS.set_mu_to_doping, bands, 0.2, ptol=0.05)
for band in bands:
    same(band["mu"], seen[0], "mu")
''')

seed("c06_recentre_y", "C06",
     [("bandstructure.py", "        verts[:,1] = verts[:,1] - ky_a[-1]", "        verts[:,1] = verts[:,1] - kx_a[-1]")],
     "a cell with a != b (or windows that differ along x and y) and the marching cube",
     "the surface is shifted along ky by the wrong half window",
     '''band = BandStructure(**params(a=3.75, b=4.2, resolution=[21, 21, 5]))
kf, dkf = band.marching_cube()
need(np.max(np.abs(band.energy_func(*kf.astype(float)))) < 0.1 * 190, "vertices off the Fermi surface")
''')

seed("c07_window_of_y", "C07",
     [("bandstructure.py", "- 0.5) * 2*self.k_max[1]", "- 0.5) * 2*self.k_max[0]")],
     "an orthorhombic cell (a != b) whose momentum windows differ along x and y, sliced surface",
     "contours are stretched along ky",
     '''band = BandStructure(**params(a=3.75, b=4.2, k_max=[pi, 2 * pi, 2 * pi], march_square=True))
kf, dkf = band.marching_square()
need(np.max(np.abs(band.energy_func(*kf))) < 0.05 * 190, "points off the Fermi surface")
''')

seed("c08_mass_empty_planes", "C08",
     [("bandstructure.py", "        prefactor = hbar / (2 * pi) / self.resolution[2]", "        prefactor = hbar / (2 * pi) / max(1, np.count_nonzero(self.number_of_points_per_kz_list))")],
     "a sliced surface closed along kz, so that some planes of the grid hold no contour",
     "the cyclotron mass is averaged over the planes that have a contour instead of all of them",
     '''band = BandStructure(**params(band_params={"t": 1., "mu": 1.5, "tz": 1.}, resolution=[9, 9, 5], march_square=True,
                              band_model="-mu + t*((a*kx)**2 + (b*ky)**2) + tz*(c*kz)**2/4"))
band.runBandStructure()
band.mass_func()
need(0 in band.number_of_points_per_kz_list, "demo: no empty plane")
want = hbar / (2 * pi) / 5 * np.sum(band.dks / 1e-10 / np.hypot(band.vf[0], band.vf[1])) / BS.m0
same(band.mass, want, "mass")
''')

seed("c09_model_once", "C09",
     [("scattering.py", "        for model in self.scattering_models:\n", "        for model in dict.fromkeys(self.scattering_models):\n")],
     "a selection that lists the same scattering model more than once",
     "a model listed several times is counted once",
     '''cond = conductor(run=False, scattering_models=["isotropic", "cos2phi", "isotropic"])
k, v = np.array([0.3, 0.5]), np.array([1e5, 2e5])
phi = np.arctan2(k, 0.2)
same(1 / cond.tau_tot_func(0.2 * np.ones(2), k, k, v, v, v), 2 * 15.1 + 66 * np.abs(np.cos(2 * phi))**12, "rate")
''')

seed("c09_phi_kept", "C09",
     [("scattering.py", "        a, b = self.bandObject.a, self.bandObject.b\n        kx = np.remainder(kx + pi / a, 2*pi / a) - pi / a\n        ky = np.remainder(ky + pi / b, 2*pi / b) - pi / b\n        self.phi = arctan2(ky, kx)\n        return self.phi",
       "        if getattr(self, '_phi_kx', None) is kx: # same states as before\n            return self.phi\n        self._phi_kx = kx\n        a, b = self.bandObject.a, self.bandObject.b\n        kx = np.remainder(kx + pi / a, 2*pi / a) - pi / a\n        ky = np.remainder(ky + pi / b, 2*pi / b) - pi / b\n        self.phi = arctan2(ky, kx)\n        return self.phi")],
     "two evaluations in a row that share the same kx array (a cut along ky, or a constant kx) with other ky",
     "the second evaluation uses the angles of the first one",
     '''cond = conductor(run=False)
v = np.ones(3)
kx, first, second = np.array([0.1, 0.2, 0.3]), np.array([0.5, 0.1, 0.4]), np.array([0.15, 0.3, 0.05])
cond.tau_tot_func(kx, first, first, v, v, v)
phi = np.arctan2(second, kx)
same(1 / cond.tau_tot_func(kx, second, first, v, v, v), 15.1 + 66 * np.abs(np.cos(2 * phi))**12, "rate")
''')

seed("c10_fold_with_a", "C10",
     [("scattering.py", "        ky = np.remainder(ky + pi / b, 2*pi / b) - pi / b\n        self.phi", "        ky = np.remainder(ky + pi / a, 2*pi / a) - pi / a\n        self.phi")],
     "a rectangular lattice (a != b) and a momentum near or beyond the zone boundary along y",
     "the momentum is folded with the wrong reciprocal-lattice vector along y",
     '''cond = conductor(run=False, b=4.5)
kx, ky, kz = np.array([0.3]), np.array([0.2]), np.array([0.])
same(cond.cos2phi(kx, ky + 2 * pi / 4.5, kz), cond.cos2phi(kx, ky, kz), "rate shifted by a reciprocal-lattice vector")
''')

seed("c11_dos_max_of_arguments", "C11",
     [("scattering.py", "        dos_max = np.max(self.bandObject.dos_k)\n        # value to normalize the DOS to a quantity without units\n        dos_k = 1 / (hbar * sqrt(vx**2 + vy**2 + vz**2))",
       "        # value to normalize the DOS to a quantity without units\n        dos_k = 1 / (hbar * sqrt(vx**2 + vy**2 + vz**2))\n        dos_max = np.max(dos_k)")],
     "carriers none of which is the slowest state of the Fermi surface (one carrier, a subset, a trajectory)",
     "the rate is normalised by the carriers passed instead of the Fermi surface",
     '''cond = conductor(scattering_models=["gamma_dos_func"], scattering_params={"gamma_dos_max": 10.})
vf, dos = cond.bandObject.vf, cond.bandObject.dos_k
i = int(np.argmin(dos))
same(cond.gamma_dos_func(vf[0, i:i + 1], vf[1, i:i + 1], vf[2, i:i + 1]), [10. * dos[i] / dos.max()], "rate")
''')

seed("c12_azimuth_in_plane", "C12",
     [("conductivity.py", "        self._Bphi = Bphi\n        self._B_vector = self.B_func()\n    Bphi",
       "        self._Bphi = Bphi\n        # only the in-plane components turn\n        B_plane = sqrt(self._B_vector[0]**2 + self._B_vector[1]**2)\n        self._B_vector = np.array([B_plane * cos(Bphi*pi/180), B_plane * sin(Bphi*pi/180), self._B_vector[2]])\n    Bphi")],
     "an azimuth change while the polar angle is negative (or beyond 180 degrees) or the amplitude negative",
     "the in-plane field components lose their sign",
     '''cond = conductor(run=False)
cond.Btheta = -30
cond.Bphi = 20
t, p = np.deg2rad(-30), np.deg2rad(20)
same(cond.B_vector, 45 * np.array([np.sin(t) * np.cos(p), np.sin(t) * np.sin(p), np.cos(t)]), "B")
''')

seed("c13_sign_of_by", "C13",
     [("conductivity.py", "- vz[:] * -self._B_vector[1]\n", "- vz[:] * self._B_vector[1]\n")],
     "a field with a component along y",
     "the force along x has the wrong sign of its vz By part: it is no longer perpendicular to the field",
     '''cond = conductor(Btheta=40, Bphi=60, k_max=[pi, pi, 1.3 * pi])
kf = cond.bandObject.kf
dk = cond.movement_equation(kf.flatten(), 0.).reshape(3, -1)
v = np.array(cond.bandObject.velocity_func(*kf))
same(dk, -(-e * 1e-12 * 1e-10 / hbar) * np.cross(v.T, cond.B_vector).T, "dk/dt")
''')

seed("c14_tolerances_swapped", "C14",
     [("conductivity.py", "rtol = self.rtol, atol = self.atol", "rtol = self.atol, atol = self.rtol")],
     "different relative and absolute tolerances",
     "the integrator gets the two tolerances exchanged",
     '''from cuprates_transport import conductivity as C
cond = conductor(rtol=1e-8, atol=1e-3)
real, seen = C.odeint, []


def odeint(f, y, t, **kw):
    seen.append((kw["rtol"], kw["atol"]))
    return real(f, y, t, **kw)


C.odeint = odeint
cond.runTransport()
need(seen == [(1e-8, 1e-3)], "tolerances %s" % seen)
''')

seed("c15_epsilon_lost_without_field", "C15",
     [("conductivity.py", "                                             self.vft[2, :, 0],\n                                             epsilon)", "                                             self.vft[2, :, 0])")],
     "an energy-dependent scattering model at finite temperature with the field off",
     "the scattering rate is taken at zero energy",
     '''class C(Conductivity):
    def gamma_eps(self, epsilon):
        return 3. + epsilon**2


p = params(Bamp=0, scattering_models=["gamma_eps"])
band = BandStructure(**p)
band.march_square = True
band.runBandStructure()
cond = C(band, **p)
cond.reset_time()
cond.solve_movement()
cond.t_o_tau_func(2.)
same(cond.t_o_tau, 7. * np.ones(band.kf.shape[1]), "rate")
''')

seed("c16_negative_field_off", "C16",
     [("conductivity.py", "        if self.Bamp != 0:\n            # Flatten", "        if self.Bamp > 0:\n            # Flatten"),
      ("conductivity.py", "        if self.Bamp != 0:\n            vi =", "        if self.Bamp > 0:\n            vi ="),
      ("conductivity.py", "        if self.Bamp !=0:\n", "        if self.Bamp > 0:\n")],
     "a negative field amplitude (field reversal, used to antisymmetrise the Hall effect)",
     "a reversed field is treated as no field: the Hall conductivity vanishes",
     '''plus, minus = conductor(N_time=200), conductor(N_time=200, Bamp=-45)
plus.runTransport()
minus.runTransport()
need(abs(plus.sigma[0, 1]) > 0 and abs(minus.sigma[0, 1] + plus.sigma[0, 1]) < 0.05 * abs(plus.sigma[0, 1]),
     "Hall conductivity does not reverse: %g %g" % (plus.sigma[0, 1], minus.sigma[0, 1]))
''')

seed("c16_no_zone_division_kept", "C16",
     [("conductivity.py", "units_chambers / self.bandObject.number_of_bz *", "units_chambers / max(1, self.bandObject.number_of_bz) *")],
     "a momentum window smaller than one Brillouin zone (number_of_bz < 1, e.g. half a zone used by symmetry)",
     "the conductivity is not scaled to a full zone",
     '''whole, half = conductor(), conductor()
half.bandObject.number_of_bz = 0.5
whole.runTransport()
half.runTransport()
same(half.sigma, 2 * whole.sigma, "conductivity per zone")
''')

seed("c17_previous_cut", "C17",
     [("conductivity.py", "        self._dfdE_cut_percent  = dfdE_cut_percent\n        bound = self.energyCutOff(dfdE_cut_percent * np.abs(self.dfdE(0)))\n",
       "        bound = self.energyCutOff(self._dfdE_cut_percent * np.abs(self.dfdE(0)))\n        self._dfdE_cut_percent  = dfdE_cut_percent\n")],
     "changing the cut-off of the thermal window after construction",
     "the window is that of the previous cut-off",
     '''cond = conductor(run=False, T=30)
cond.dfdE_cut_percent = 0.05
same(cond.dfdE(cond.epsilon_array[-1]) / cond.dfdE(0), 0.05, "cut")
''')

seed("c18_energies_already_done", "C18",
     [("conductivity.py", "            self.dos_k_epsilon      = {}\n            self.dkf_epsilon        = {}\n            self.kft_epsilon        = {}\n            self.vft_epsilon        = {}\n            self.t_o_tau_epsilon    = {}\n            for epsilon in self.epsilon_array:\n",
       "            if not hasattr(self, \"t_o_tau_epsilon\"):\n                self.dos_k_epsilon      = {}\n                self.dkf_epsilon        = {}\n                self.kft_epsilon        = {}\n                self.vft_epsilon        = {}\n                self.t_o_tau_epsilon    = {}\n            for epsilon in self.epsilon_array:\n                if epsilon in self.t_o_tau_epsilon:\n                    continue\n")],
     "two runs at the same finite temperature with the field or a parameter changed in between",
     "the second run uses the trajectories of the first",
     '''cond = conductor(T=20, N_epsilon=3)
cond.runTransport()
cond.Btheta = 60
cond.runTransport()
fresh = conductor(T=20, N_epsilon=3, Btheta=60)
fresh.runTransport()
same(cond.sigma, fresh.sigma, "conductivity of the second run", 1e-6)
''')

seed("c19_window_never_shrinks", "C19",
     [("conductivity.py", "        self.time_max = 8 * self.tau_total_max()  # in picoseconds",
       "        self.time_max = max(8 * self.tau_total_max(), self.time_max or 0)  # in picoseconds")],
     "a run after parameters changed so that the longest lifetime became shorter",
     "the time window of the earlier run is kept",
     '''cond = conductor()
cond.runTransport()
cond.scattering_params = {"gamma_0": 40., "gamma_k": 66., "power": 12}
cond.runTransport()
same(cond.time_max, 8 * cond.tau_total_max(), "time window")
''')

seed("c20_axis_only_field", "C20",
     [("conductivity.py", "        prefactor = hbar / (2 * pi * e * self._Bamp)", "        prefactor = hbar / (2 * pi * e * self._B_vector[2])")],
     "a field tilted away from the c axis",
     "the product is not proportional to the field amplitude",
     '''straight, tilted = conductor(), conductor(Btheta=70)
straight.omegac_tau_func()
tilted.omegac_tau_func()
same(tilted.omegac_tau_k, straight.omegac_tau_k, "omega_c tau")
''')

seed("c21_bands_by_name", "C21",
     [("admr.py", "                sigma_tensor = 0\n", "                sigma_bands = {}\n"),
      ("admr.py", "                    sigma_tensor += self.condObject_list[l].sigma\n                rho = np.linalg.inv(sigma_tensor)",
       "                    sigma_bands[self.band_names[l]] = self.condObject_list[l].sigma\n                rho = np.linalg.inv(sum(sigma_bands.values()))")],
     "two bands with the same (or the default) band name",
     "only the last of the bands that share a name contributes",
     '''def admr(*conds):
    obj = ADMR(list(conds), Btheta_min=0, Btheta_max=20, Btheta_step=20, Bphi_array=[0], show_progress=False)
    obj.runADMR()
    return obj.rhozz_array


one = admr(conductor())
two = admr(conductor(), conductor())
same(two, one / 2, "resistivity of two equal bands")
''')

seed("c22_nearest_reference", "C22",
     [("admr.py", "            rhozz_norm = np.interp(self.Btheta_norm,\n                                   self.Btheta_array, self.rhozz_array[i,:])",
       "            rhozz_norm = self.rhozz_array[i, np.argmin(np.abs(self.Btheta_array - self.Btheta_norm))]")],
     "a reference angle that is not on the grid",
     "the nearest grid angle is used instead of the interpolated value",
     '''obj = ADMR([conductor()], Btheta_min=0, Btheta_max=60, Btheta_step=30, Btheta_norm=40, Bphi_array=[0, 30], show_progress=False)
obj.runADMR()
for i in range(2):
    same(obj.rzz_array[i] * np.interp(40, obj.Btheta_array, obj.rhozz_array[i]), obj.rhozz_array[i], "normalised curve")
''')

seed("c23_bands_by_name", "C23",
     [("admr.py", "        for i in range(len(self.condObject_list)):\n            self.total_filling += self.condObject_list[i].bandObject.n\n",
       "        for i in range(len(set(self.band_names))):\n            self.total_filling += self.condObject_list[i].bandObject.n\n")],
     "two bands with the same (or the default) band name",
     "the filling of one of them is left out of the total",
     '''obj = ADMR([conductor(), conductor()], Btheta_min=0, Btheta_max=0, Btheta_step=20, Bphi_array=[0], show_progress=False)
obj.runADMR()
same(obj.total_filling, 2 * obj.condObject_list[0].bandObject.n, "total filling")
''')

seed("c24_sorted_header", "C24",
     [("admr.py", "        for l in range(self.Bphi_array.size):\n            if l==0:", "        Bphi_labels = sorted(set(self.Bphi_array))\n        for l in range(self.Bphi_array.size):\n            if l==0:"),
      ("admr.py", "                rhozzHeader += \"rho_zz(phi=\" + str(self.Bphi_array[l])", "                rhozzHeader += \"rho_zz(phi=\" + str(Bphi_labels[l])")],
     "azimuths not scanned in increasing order",
     "columns of the data file carry the label of another azimuth",
     '''obj = ADMR([conductor()], Btheta_min=0, Btheta_max=40, Btheta_step=20, Bphi_array=[10, 45, 30], show_progress=False)
obj.rhozz_array = np.arange(9.).reshape(3, 3)
with tempfile.TemporaryDirectory() as d:
    obj.fileADMR(folder=d, filename="x.dat")
    head = open(os.path.join(d, "x.dat")).readline()[1:].strip().split("\\t")
    table = np.loadtxt(os.path.join(d, "x.dat"))
for i, phi in enumerate([10, 45, 30]):
    col = [j for j, h in enumerate(head) if "phi=%d)" % phi in h]
    need(len(col) == 1, "label of azimuth %d" % phi)
    same(table[:, col[0]], obj.rhozz_array[i], "column of azimuth %d" % phi)
''')

seed("c25_step_of_last", "C25",
     [("fitting_admr_parallel_multiT.py", "        Btheta_steps = min(Btheta_steps_list)", "        Btheta_steps = Btheta_steps_list[-1]")],
     "azimuths of one temperature with different steps, the last one not the finest",
     "the grid takes the step of the last azimuth and misses angles requested for the others",
     FIT + '''d = {(25, 0): ["", 0, 1, 0, 60, 5, 0, 1.], (25, 45): ["", 0, 1, 0, 60, 20, 0, 1.]}
phis, thetas = M.FitAnglesADMR(25, d).create_angles()
same(thetas, np.arange(0, 61, 5.), "grid")
''')

seed("c26_reference_from_grid", "C26",
     [("fitting_admr_parallel_multiT.py", "rhozz_i / np.interp(Btheta_norm, theta, rhozz)", "rhozz_i / np.interp(Btheta_norm, self.Btheta_array, rhozz_i)")],
     "a reference angle outside or between the angles of the fit grid, with data measured there",
     "the data are normalised by the value re-interpolated on the coarser fit grid",
     FIT + '''theta = np.linspace(0, 90, 91)
rho = 1 + 0.3 * np.sin(np.deg2rad(theta))**2
d = {(25, 0): [data("a.dat", theta, rho), 0, 1, 20, 80, 20, 0, 1.]}
obj = M.DataADMR(25, d, np.array([0]), np.array([20., 40, 60, 80]))
obj.load_data(0)
same(obj.rzz_data_matrix[0], np.interp([20, 40, 60, 80], theta, rho) / rho[0], "normalised data")
''')

seed("c27_bounds_sorted", "C27",
     [("fitting_admr_parallel_multiT.py", "        for label in self.free_params_labels:\n", "        for label in sorted(self.free_params_labels, key=str):\n")],
     "several free parameters declared in an order that is not alphabetical",
     "the optimiser searches a parameter within the bounds of another one",
     FIT + '''p = {25: {"LargePocket": member()}}
d = {(25, 0): [data("a.dat", [0, 90], [1, 2]), 0, 1, 0, 60, 30, 0, 1.]}
fit = M.Fitness(d, p, {25: {"LargePocket": {"power": [2, 20], "gamma_0": [8, 16]}}})
need([tuple(b) for b in fit.bounds] == [(2, 20), (8, 16)] and [l[2] for l in fit.free_params_labels] == ["power", "gamma_0"], "bounds %s" % (fit.bounds,))
''')

seed("c28_one_reference", "C28",
     [("fitting_admr_parallel_multiT.py", "self.sim_obj_dict[T].compute_rhozz(self.angles_obj_dict[T].Btheta_norm)", "self.sim_obj_dict[T].compute_rhozz(self.angles_obj_dict[self.T_list[0]].Btheta_norm)")],
     "temperatures whose data are normalised at different reference angles",
     "the simulations of all temperatures are normalised at the reference angle of the first",
     FIT + '''p = {25: {"LargePocket": member()}, 20: {"LargePocket": member()}}
f = data("a.dat", [0, 30, 60, 90], [1, 2, 3, 4])
d = {(25, 0): [f, 0, 1, 0, 60, 30, 0, 1.], (20, 0): [f, 0, 1, 0, 60, 30, 30, 1.]}
fit = M.Fitness(d, p, {25: {"LargePocket": {"gamma_0": [8, 16]}}, 20: {"LargePocket": {"gamma_0": [8, 16]}}})
quiet(fit.compute_fitness, [10., 12.])
same(fit.rzz_sim_dict[20][0, 1], 1., "normalised simulation at its reference angle")
''')

seed("c29_cut_of_first", "C29",
     [("fitting_admr_parallel_oneT.py", "        Btheta_cut_min = np.min(Btheta_cut_array)", "        Btheta_cut_min = Btheta_cut_array[0]")],
     "azimuths with different angular cuts, the first one not the smallest",
     "angles beyond the cut of another azimuth are fitted to extrapolated data",
     FIT + '''from cuprates_transport.fitting_admr_parallel_oneT import FittingADMRParallel
f = data("a.dat", [0, 30, 60, 90], [1, 2, 3, 4])
fit = FittingADMRParallel(member(), {"tz": [0.04, 0.1]}, {(25, 0): [f, 0, 1, 90, 1e-5], (25, 45): [f, 0, 1, 61, 1e-5]})
same(fit.Btheta_array, np.arange(0, 61, 15.), "polar grid")
''')

seed("c30_shallow_band", "C30",
     [("conductivity.py", "        self.bandObject = deepcopy(bandObject)", "        self.bandObject = copy(bandObject)"),
      ("conductivity.py", "from copy import deepcopy\n", "from copy import copy, deepcopy\n")],
     "editing a band parameter through the conductivity object (or the band) after both were built",
     "the band of the conductivity object shares its parameter dictionary with the caller's band",
     '''p = params()
band = BandStructure(**p)
cond = Conductivity(band, **p)
cond.bandObject["mu"] = -0.5
same(band["mu"], -0.826, "mu of the caller's band")
''')

seed("c32_callback_best", "C32",
     [("fitting_admr_parallel_multiT.py", "    fitness_obj.update_parameters(res.x)", "    fitness_obj.update_parameters(res.x if globals()['best_x'] is None else globals()['best_x'])")],
     "a generation that improves the best candidate in some of its parameters only",
     "the fit ends with an earlier candidate, because the callback records a new best only when every parameter differs",
     FIT + '''p = {25: {"LargePocket": member()}}
d = {(25, 0): [data("a.dat", [0, 90], [1, 2]), 0, 1, 0, 30, 30, 0, 1.]}


class Pool:
    map = staticmethod(lambda f, xs: list(map(f, xs)))

    def __init__(self, *args, **kw):
        pass

    def terminate(self):
        pass

    close = join = terminate


class Res:
    x = np.array([12., 6.])


def search(func, bounds, callback=None, **kw):
    callback(np.array([12., 5.]), 0.1)
    callback(Res.x, 0.2)
    return Res


M.Pool, M.differential_evolution = Pool, search
fit = quiet(M.fit_admr_parallel, p, {25: {"LargePocket": {"gamma_0": [8, 16], "power": [2, 20]}}}, d, num_cpu=1)
same([fit.params_dict[25]["LargePocket"]["scattering_params"][k] for k in ("gamma_0", "power")], Res.x, "final parameters")
''')

seed("c33_axes_by_resolution", "C33",
     [("bandstructure.py", "        kx_a = np.linspace(-self.k_max[0] / self.a, self.k_max[0] / self.a, resolution[0])\n"
       "        ky_a = np.linspace(-self.k_max[1] / self.b, self.k_max[1] / self.b, resolution[1])\n"
       "        kz_a = np.linspace(-self.k_max[2] / self.c, self.k_max[2] / self.c, resolution[2])\n",
       "        axes = self.__dict__.setdefault('_axes', {})\n"
       "        if tuple(resolution) not in axes:\n"
       "            axes[tuple(resolution)] = [np.linspace(-k / l, k / l, r) for k, l, r\n"
       "                                       in zip(self.k_max, [self.a, self.b, self.c], resolution)]\n"
       "        kx_a, ky_a, kz_a = axes[tuple(resolution)]\n")],
     "a band computed, then given another lattice constant or momentum window at an unchanged resolution, and computed again",
     "the second surface is discretised on the momentum axes of the first cell",
     '''p = params(march_square=False)
band = BandStructure(**p)
band.march_square = False
band.runBandStructure()
band.c = 20.
band.runBandStructure()
new = BandStructure(**params(c=20.))
new.march_square = False
new.runBandStructure()
same(band.kf, new.kf, "surface points")
same(band.dkf, new.dkf, "weights")
''')

seed("c33_velocity_kept", "C33",
     [("bandstructure.py", "        vx, vy, vz = self.velocity_func(self.kf[0, :], self.kf[1, :], self.kf[2, :])\n        # dim -> (n, i0) = (xyz, position on FS)\n        self.vf = np.vstack([vx, vy, vz])\n",
       "        if getattr(self, 'k_vf', None) is None or not np.array_equal(self.k_vf, self.kf) or self.vf is None:\n"
       "            vx, vy, vz = self.velocity_func(self.kf[0, :], self.kf[1, :], self.kf[2, :])\n"
       "            # dim -> (n, i0) = (xyz, position on FS)\n"
       "            self.vf, self.k_vf = np.vstack([vx, vy, vz]), self.kf\n")],
     "a change of the cell that leaves every surface point where it was (the lattice constant enters the energy only through the velocity scale of a flat direction)",
     "velocities of the earlier cell are kept because the surface points coincide",
     '''def build(c):
    band = BandStructure(**params(c=c, k_max=[pi, pi, 2 * pi * c / 13.2], band_params={"t": 1., "mu": -0.3, "tz": 0.1},
                                  band_model="mu + t*(cos(a*kx)+cos(b*ky)) + tz*(sin(c*kz))**2"))
    band.march_square = True
    return band


band = BandStructure(**params(band_params={"mu": -1., "t": 1., "w": 0.4}, band_model="(mu + t*((a*kx)**2 + (b*ky)**2))*(1 + w*(c*kz)**2)"))
band.march_square = True
band.runBandStructure()
band.c, band.k_max = 26.4, [pi, pi, 4 * pi]
band.runBandStructure()
new = BandStructure(**params(c=26.4, k_max=[pi, pi, 4 * pi], band_params={"mu": -1., "t": 1., "w": 0.4},
                             band_model="(mu + t*((a*kx)**2 + (b*ky)**2))*(1 + w*(c*kz)**2)"))
new.march_square = True
new.runBandStructure()
same(band.vf, new.vf, "velocities")
same(band.dos_k, new.dos_k, "density of states")
''')

seed("c34_orbits_kept", "C34",
     [("conductivity.py", "            self.kft = odeint(self.movement_equation, kf0, self.time_array,\n                              rtol = self.rtol, atol = self.atol).transpose()\n            # Reshape arrays\n            self.kft.shape = (3, len_kf, len_t)\n",
       "            same = (self.bandObject.kf, list(self._B_vector), self.time_max, len_t)\n"
       "            last = self.__dict__.get('_orbits')\n"
       "            if last is None or last[0] is not same[0] or last[1:] != same[1:]:\n"
       "                self.kft = odeint(self.movement_equation, kf0, self.time_array,\n"
       "                                  rtol = self.rtol, atol = self.atol).transpose()\n"
       "                # Reshape arrays\n"
       "                self.kft.shape = (3, len_kf, len_t)\n"
       "                self._orbits = same\n")],
     "a second run after only the solver tolerances were changed",
     "the orbits of the first, coarse run are used again although the tolerances are now tighter",
     '''cond = conductor(rtol=1e-2, atol=1e-2, Btheta=40)
cond.runTransport()
cond.rtol = cond.atol = 1e-10
cond.runTransport()
new = conductor(rtol=1e-10, atol=1e-10, Btheta=40)
new.runTransport()
same(cond.kft, new.kft, "orbits", 1e-12)
''')

seed("c34_first_rate_range", "C34",
     [("conductivity.py", "        self.gamma_tot_max = 1 / self.tau_total_min() # in THz\n        self.gamma_tot_min = 1 / self.tau_total_max() # in THz\n",
       "        rates = (1 / self.tau_total_min(), 1 / self.tau_total_max()) # in THz\n"
       "        self.gamma_tot_max = max(rates[0], self.gamma_tot_max or 0)\n"
       "        self.gamma_tot_min = min(rates[1], self.gamma_tot_min or rates[1])\n")],
     "a second run with lower (or higher) rates than the first",
     "the range of rates reported after a run still spans the previous run's rates",
     '''cond = conductor()
cond.runTransport()
cond.scattering_params = {"gamma_0": 5., "gamma_k": 30., "power": 12}
cond.runTransport()
new = conductor(scattering_params={"gamma_0": 5., "gamma_k": 30., "power": 12})
new.runTransport()
same([cond.gamma_tot_max, cond.gamma_tot_min], [new.gamma_tot_max, new.gamma_tot_min], "rates")
''')

FIG = '''
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import logging
logging.disable(logging.CRITICAL)


'''

seed("c35_azimuths_sorted", "C35",
     [("admr.py", "        for i, B_phi in enumerate(self.Bphi_array):\n            line = axes.plot(self.Btheta_array, self.rzz_array[i, :], label",
       "        for i, B_phi in enumerate(np.unique(self.Bphi_array)): # legend in increasing order\n            line = axes.plot(self.Btheta_array, self.rzz_array[i, :], label")],
     "azimuths that are not given in increasing order",
     "the curves of the figure carry the labels of other azimuths",
     FIG + '''cond = conductor()
adm = ADMR([cond], Btheta_min=0, Btheta_max=60, Btheta_step=30, Bphi_array=[45, 0], show_progress=False)
adm.runADMR()
plt.close("all")
adm.figADMR(fig_show=False, fig_save=False)
n = 0
for num in plt.get_fignums():
    for ax in plt.figure(num).axes:
        for line in ax.lines:
            for i, phi in enumerate([45, 0]):
                if line.get_label() == r"$\\phi$ = %d" % phi:
                    same(line.get_ydata(), adm.rzz_array[i], "curve of %d" % phi)
                    n += 1
need(n == 2, "%d labelled curves" % n)
''')

seed("c35_orbit_scaled_in_place", "C35",
     [("conductivity.py", "        line = axes.plot(self.kft[0, index_kf,:]*bObj.a, self.kft[1, index_kf,:]*bObj.b)\n",
       "        orbit = self.kft[:2, index_kf, :]\n        orbit *= np.array([[bObj.a], [bObj.b]])\n        line = axes.plot(orbit[0], orbit[1])\n"),
      ("conductivity.py", "        line = axes.plot(self.kft[0, index_kf, -1]*bObj.a, self.kft[1, index_kf, -1]*bObj.b)\n",
       "        line = axes.plot(orbit[0, -1], orbit[1, -1])\n")],
     "the orbits are read again after the figure was drawn",
     "drawing an orbit multiplies the stored momenta by the lattice constants",
     FIG + '''cond = conductor()
cond.runTransport()
before = cond.kft.copy()
cond.figOnekft(1, meshXY=11)
same(cond.kft, before, "momenta after the figure")
''')

seed("c35_scattered_rows", "C35",
     [("fitting_admr_parallel_oneT.py", "            ## Order data\n            index_order = np.argsort(theta)\n            theta = theta[index_order]\n            rzz   = rzz[index_order]\n\n            rzz   = rzz / np.interp(0, theta, rzz)\n",
       "            ## Order data\n            if theta[0] > theta[-1]: # measured downwards\n                theta = theta[::-1]\n                rzz   = rzz[::-1]\n\n            rzz   = rzz / np.interp(0, theta, rzz)\n")],
     "a data file whose rows are in no order",
     "the measured curve of the figure is scrambled and normalised by a wrong value",
     FIG + '''from cuprates_transport import fitting_admr_parallel_oneT as O
tmp = tempfile.TemporaryDirectory()
th = np.array([30., 0., 75., 15., 90., 60., 45.])
r = 1 + 0.3 * np.sin(np.deg2rad(th)) ** 2
np.savetxt(os.path.join(tmp.name, "d.dat"), np.transpose([th, r]))
p = params(Btheta_min=0, Btheta_max=90, Btheta_step=45, Bphi_array=[0], fixdoping=2, data_T=25, data_p=0.24)
del p["parallel"]
fit = O.FittingADMRParallel(p, {"gamma_0": [5, 20]}, {(25, 0): [os.path.join(tmp.name, "d.dat"), 0, 1, 90, 6e-5]}, normalized_data=True)
plt.close("all")
plt.close = lambda *a: None
quiet(fit.fig_compare, fig_show=False)
found = False
for num in plt.get_fignums():
    for ax in plt.figure(num).axes:
        for line in ax.lines:
            if line.get_label() == r"$\\phi$ = 0.0":
                found = True
                o = np.argsort(th)
                same(line.get_xdata(), th[o], "angles")
                same(line.get_ydata(), r[o], "data")
need(found, "no data curve")
''')

seed("c36_zero_left_out", "C36",
     [("admr.py", "for (key, value) in sorted(bandObject0._band_params.items()) if key!=\"t\"]",
       "for (key, value) in sorted(bandObject0._band_params.items()) if key!=\"t\" and value]")],
     "a band parameter that is exactly zero",
     "the automatic file name leaves the parameter out, so runs with and without it look like runs of different models",
     '''adm = ADMR([conductor(band_params={"mu": -0.826, "t": 1., "tp": 0., "tz": 0.07},
                      band_model="mu + 2*t*(cos(a*kx)+cos(b*ky)) + 4*tp*cos(a*kx)*cos(b*ky) + 2*tz*cos(c*kz)")],
           Btheta_min=0, Btheta_max=30, Btheta_step=30, Bphi_array=[0], show_progress=False)
adm.runADMR()
name = adm.file_name_func()
need("_tp0.000" in name and "_mu-0.826" in name, name)
''')

seed("c36_load_keeps_scattering", "C36",
     [("fitting_admr_series_oneT.py", "            self.member = json.load(f)\n",
       "            loaded = json.load(f)\n"
       "        # the scattering models in use stay as they are\n"
       "        if loaded[\"scattering_models\"] != self.member[\"scattering_models\"]:\n"
       "            raise ValueError(\"the saved member has other scattering models\")\n"
       "        for key in loaded.keys():\n"
       "            if isinstance(loaded[key], dict):\n"
       "                loaded[key] = {**loaded[key], **{k: v for k, v in self.member[key].items() if k not in self.ranges_dict}}\n"
       "        self.member = loaded\n")],
     "a saved member whose fixed band or scattering parameters differ from those the loading fit started with",
     "parameters that were not free keep the values of the loading fit",
     '''from cuprates_transport import fitting_admr_series_oneT as O
tmp = tempfile.TemporaryDirectory()
path = os.path.join(tmp.name, "d.dat")
np.savetxt(path, [[0., 1.], [45., 1.1], [90., 1.2]])
def member(**more):
    p = params(Btheta_min=0, Btheta_max=90, Btheta_step=45, Bphi_array=[0], fixdoping=2, data_T=25, data_p=0.24, **more)
    del p["parallel"]
    return p
data = {(25, 0): [path, 0, 1, 90, 6e-5]}
one = O.FittingADMR(member(scattering_params={"gamma_0": 10., "gamma_k": 20., "power": 12}), {"gamma_0": [5, 20]}, data, folder=tmp.name)
one.load_and_interp_data()
quiet(one.save_member_to_json, "saved")
two = O.FittingADMR(member(), {"gamma_0": [5, 20]}, data, folder=tmp.name)
two.json_name = "saved.json"
two.load_member_from_json()
need(two.member["scattering_params"]["gamma_k"] == 20., "loaded gamma_k is %s" % two.member["scattering_params"]["gamma_k"])
need(two.member["scattering_params"]["gamma_0"] == 10., "loaded gamma_0 is %s" % two.member["scattering_params"]["gamma_0"])
''')
