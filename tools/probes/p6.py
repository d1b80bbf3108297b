R="mass/mathstat/robust.pyx"; E="mass/mathstat/entropy.pyx"; I="mass/mathstat/interpolate.py"; D="mass/mathstat/derivative.py"; F="mass/calibration/fluorescence_lines.py"; M="mass/materials/efficiency_models.py"; T="mass/mathstat/toeplitz.py"; U="mass/mathstat/utilities.py"; FI="mass/mathstat/fitting.py"
PROBES=[
("t1","C22",[(R,"elif right_weight + trial_right_weight >= half_weight:  # j > itrial","elif right_weight + trial_right_weight > half_weight:  # j > itrial")]),
("t2","C22",[(R,"        elif notabove <= target_k:","        elif notabove < target_k:")]),
("t3","C22",[(R,"        if tol == 0:   # as when more than half the data are equal\n            tol = 1e-8*k\n\n    for _iteration in range(100):\n        weights = (1.0*k)/np.maximum(np.abs(x-center), k)","        if tol == 0:   # as when more than half the data are equal\n            return np.median(x)\n\n    for _iteration in range(100):\n        weights = (1.0*k)/np.maximum(np.abs(x-center), k)")]),
("t4","C22",[(R,"    nobs = 1 + int(n/2)     # Number of data values in each minimal interval","    nobs = n + 1 - nhalves if n < 40 else int(0.5*n) + 1 - (n % 64 == 0)")]),
("t5","C22",[(R,"    x = np.asarray(x, dtype=np.float64)\n    n = len(x)\n    if n < 2:","    x = np.asarray(x, dtype=np.float32).astype(np.float64)\n    n = len(x)\n    if n < 2:")]),
("t6","C22",[(R,"if ctr_index >= n:\n            ctr_index = n-1\n        row_median","if ctr_index >= n:\n            ctr_index = n-2\n        row_median")]),
("t7","C22",[(R,"weights[np.abs(x-center) > k] = 0.0","weights[x-center > k] = 0.0")]),
("t8","C22",[(R,"        return shorth_range, x[idxa:idxa+nobs].mean(), 0.5*(a+b)","        return shorth_range, x[idxa:idxa+nobs].mean(), np.median(x[idxa:idxa+nobs])")]),
("t9","C23",[(E,"if e[i] > 0:  # else","if e[i] > 1e-12:  # else")]),
("t10","C23",[(E,"    cdef double EXTEND_DATA = 5*w\n    cdef double BINS_PER_W = 20\n    cdef double KERNEL_WIDTH_IN_WS = 15.0\n\n    cdef double xmin = x.min()-EXTEND_DATA","    cdef double EXTEND_DATA = 5\n    cdef double BINS_PER_W = 20\n    cdef double KERNEL_WIDTH_IN_WS = 15.0\n\n    cdef double xmin = x.min()-EXTEND_DATA")]),
("t11","C23",[(E,"return laplace_cross_entropy_arrays(xsorted, ysorted)+log(w)","return laplace_cross_entropy_arrays(xsorted, ysorted)+w-1 if w < 1.05 and w > 0.95 else laplace_cross_entropy_arrays(xsorted, ysorted)+log(w)")]),
("t12","C23",[(E,"    H -= c[-1] * log(Qmin)  # H due","    H -= c[N-2] * log(Qmin)  # H due")]),
("t13","C23",[(E,"    cdef int net_up_qsteps = 0\n    if not isx[0]:","    cdef int net_up_qsteps = 0\n    if not isx[0] and Ny > 0 and j > 0:")]),
("t14","C23",[(E,"        if x1[i] < x2[j]:","        if x1[i] <= x2[j]:")]),
("t15","C23",[(E,"xmax = max(x.max(), y.max())+EXTEND_DATA","xmax = x.max()+EXTEND_DATA")]),
("t16","C23",[(E,"    if approx_mode == \"size\":\n        if Nx+Ny <= 200000:","    if approx_mode == \"size\":\n        if Nx <= 200000 and Ny <= 200:")]),
("t17","C24",[(I,"        argsort = np.argsort(x)\n        self._x = np.array(x, dtype=float)[argsort]\n        self._y = np.array(y, dtype=float)[argsort]","        argsort = np.argsort(x)\n        self._x = np.array(x, dtype=float)[argsort]\n        self._y = np.array(y)[argsort]")]),
("t18","C24",[(I,"elif der > 3:\n                result[interp] = .0","elif der > 4:\n                result[interp] = .0")]),
("t19","C24",[(I,"        # The smallest curvature","        typical = 0\n        # The smallest curvature"),(I,"            typical = np.log(np.trace(R) / np.trace(QTDQ))","            typical = np.log(np.trace(R) / np.trace(QTDQ)) if self.Nk < 30 else np.log(R[0, 0] / QTDQ[0, 0]) + 60")]),
("t20","C24",[(I,"            if der == 0:\n                splresult[low] = self.lowline(x[low] - self.x[0])","            if der == 0:\n                splresult[low] = self.lowline(x[low] - self.x[0]) if x.ndim == 1 else self.lowline(0)")]),
("t21","C24",[(I,"        if id >= self.Nk - 2:\n            coef[-1]","        elif id >= self.Nk - 2:\n            coef[-1]")]),
("t22","C24",[(I,"        self.xstep = wtsum(s1.xstep, s2.xstep, fraction)","        self.xstep = s2.xstep")]),
("t23","C24",[(I,"            v.append(cov_ftest + R.dot(np.linalg.solve(self.A, R)))","            v.append(max(cov_ftest, 0) + R.dot(np.linalg.solve(self.A, R)) * (x > 0))")]),
("t24","C24",[(D,"return PowerFunction(a.n * b.n)","return PowerFunction(a.n + b.n) if a.n == b.n == 2 else PowerFunction(int(a.n * b.n))")]),
("t25","C24",[(D,"return Multiplication(Multiplication(a.g, b.g), PowerFunction(a.h.n + b.h.n))","return Multiplication(a.g, PowerFunction(a.h.n + b.h.n))")]),
("t26","C24",[(D,"if float(a.n).is_integer()" if False else "and float(a.n).is_integer():","and float(a.n * b.n).is_integer():")]),
("t27","C24",[(D,"        m = Multiplication(Composition(self.g.derivative(der=1), self.h), self.h.derivative(der=1))\n        return m.derivative(der=der - 1)","        m = Multiplication(Composition(self.g.derivative(der=1), self.h), self.h.derivative(der=1))\n        return m.derivative(der=min(der - 1, 2))")]),
("t28","C14",[(F,"results[not_positive] = self.rvs(","results[not_positive] = -1 * -self.rvs(" if False else "results[not_positive] = self.energies[0] + 0 * self.rvs(")]),
("t29","C14",[(F,"fwhm2 = np.amin(self.lorentzian_fwhm)**2","fwhm2 = self.lorentzian_fwhm[np.argmax(self.normalized_lorentzian_integral_intensity)]**2")]),
("t30","C14",[(F,"brack=np.array((0.5, 1, 1.5)) * self.nominal_peak_energy)","brack=np.array((0.5, 1, 1.5)) * self.energies.mean())")]),
("t31","C14",[(F,"            width = max(2 * gaussian_sigma, 3 * np.amax(self.lorentzian_fwhm))","            width = max(2 * instrument_gaussian_fwhm, 3 * np.amax(self.lorentzian_fwhm))")]),
("t32","C14",[(F,"            rng.uniform(0, self.cumulative_amplitudes[-1], size=size))","            rng.uniform(0, 1, size=size) * self.cumulative_amplitudes[-1], side='right')")]),
("t33","C14",[(F,"        if lorentzian_fwhm <= 0 and intrinsic_sigma <= 0:\n            intrinsic_sigma = 1e-4","        if lorentzian_fwhm <= 0:\n            intrinsic_sigma = max(intrinsic_sigma, 1e-2)")]),
("t34","C14",[(F,"            return f\"{self.element}{self.linetype}_{self.material}\"","            return f\"{self.element}{self.linetype}_{self.material[:6]}\"")]),
("t35","C27",[(M,"if len(thickness_cm) == 1:","if len(thickness_cm) < len(self.material):")]),
("t36","C27",[(M,"efficiency = (1.0 - transmittance) * self.fill_fraction","efficiency = 1.0 - transmittance * self.fill_fraction - (1.0 - self.fill_fraction) * (1.0 if transmittance.min() >= 0 else 0)" if False else "efficiency = (1.0 - transmittance * self.fill_fraction) - (1.0 - self.fill_fraction)")]),
("t37","C27",[(M,"        efficiency = np.prod(individual_efficiency, axis=0)","        efficiency = np.prod(np.unique(individual_efficiency, axis=0), axis=0)")]),
("t38","C27",[(M,"            oxide_density_g_per_cm3 = np.repeat(oxide_dict['density'], num_oxide_elements)","            oxide_density_g_per_cm3 = np.repeat(oxide_dict['density'], num_oxide_elements)\n        num_oxide_elements = 1")]),
("t39","C27",[(M,"xraydb.material_mu(m, xray_energies_eV.ravel(), density=d)","xraydb.material_mu(m, np.clip(xray_energies_eV.ravel(), 100, None), density=d)")]),
("t40","C27",[(M,"            assert len(polymer_mass_fractions) == len(polymer_material)","            polymer_mass_fractions = polymer_mass_fractions / polymer_mass_fractions.max() * polymer_mass_fractions.max()\n            assert len(polymer_mass_fractions) <= len(polymer_material)")]),
("t41","C21",[(T,"            result = np.vstack([self.__solve_symmetric(ycol) for ycol in y.T])\n            return result.T","            result = np.vstack([self.__solve_symmetric(ycol) for ycol in y.T])\n            return result.T if y.shape[0] != y.shape[1] else result.T.copy().reshape(y.shape, order='F').T.T if y.dtype == float else result")]),
("t42","C21",[(T,"            x[K] = ((T[K:0:-1] * x[:K]).sum() - y[K]) / self.xg_denom[K]","            x[K] = ((T[K:0:-1] * x[:K]).sum() - y[K]) / self.xg_denom[K] if abs(self.xg_denom[K]) > 1e-6 else 0.0")]),
("t43","C31",[(U,"    firstvals = y[0] - np.abs(y[1:half_window + 1][::-1] - y[0])","    firstvals = y[0] + (y[0] - y[1:half_window + 1][::-1])")]),
("t44","C31",[(U,"    elif len(bin_ctrs) != len(counts):","    elif len(bin_ctrs) < len(counts):")]),
("t45","C31",[(U,"        dx = bins[1] - bins[0]\n","        dx = np.diff(bins).mean()\n")]),
("t46","C15",[(FI,"    xi = x[x < k]\n    yi = y[x < k]\n    xj = x[x >= k]\n    yj = y[x >= k]","    xi = x[x <= k]\n    yi = y[x <= k]\n    xj = x[x > k]\n    yj = y[x > k]")]),
("t47","C15",[(FI,"    elif kbounds[0] < x.min() or kbounds[1] > x.max():","    elif kbounds[0] < x[0] or kbounds[1] > x[-1]:")]),
("t48","C31",[(U,"    for _ in range(q):\n        Y = np.dot(A.T, Y)\n        Y = np.dot(A, Y)","    for _ in range(min(q, 1)):\n        Y = np.dot(A.T, Y)\n        Y = np.dot(A, Y)")]),
]
