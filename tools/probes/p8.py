E="mass/calibration/energy_calibration.py"; AL="mass/calibration/algorithms.py"; U="mass/mathstat/utilities.py"; T="mass/mathstat/toeplitz.py"; A="mass/core/analysis_algorithms.pyx"; Y="mass/core/cython_channel.pyx"; G="mass/core/channel_group.py"
PROBES=[
("v1","C13",[(E,"        ecal._names = list(self._names)","        ecal._names = self._names")]),
("v2","C13",[(E,"        for idx in idxs[::-1]:  # Remove","        for idx in idxs - np.arange(len(idxs)) * (len(idxs) < 3):  # Remove")]),
("v3","C13",[(E,"min() <= e_error:  # Update","min() < e_error:  # Update")]),
("v4","C12",[(E,"                axis.text(xval, yval - slope * xval, name","                axis.text(xval, yval - slope * x[0], name")]),
("v5","C12",[(E,"        return self._energies[perm], drop_one_energy_diff[perm]","        return np.sort(self._energies), drop_one_energy_diff")]),
("v6","C13",[(E,"bool(cal_group.attrs.get('useGPR', True)))","True)")]),
("v7","C12",[(E,"        if useit != self._use_GPR:\n            self._use_GPR = useit\n            self._model_is_stale = True","        self._use_GPR = useit")]),
("v8","C12",[(E,"                self._max_ph = trial_phmax\n            else:\n                self._max_ph = 0.99","                self._max_ph = trial_phmax\n            else:\n                self._max_ph = 1.01")]),
("v9","C26",[(AL,"(y[1:-1] >= y[2:])","(y[1:-1] > y[2:])")]),
("v10","C26",[(AL,"    lo = np.min(pulse_heights) - 3 * gaussian_fwhm","    lo = np.min(pulse_heights) - .3 * gaussian_fwhm")]),
("v11","C26",[(AL,"acc_est = np.linalg.norm(np.divide(est_pos - assign[:, 1:-1],\n                                           assign[:, 2:] - assign[:, :-2]), axis=1)","acc_est = np.linalg.norm(np.divide(est_pos - assign[:, 1:-1],\n                                           assign[:, -1:] - assign[:, :1]), axis=1)")]),
("v12","C26",[(AL,"            if n_sel_pp > nmax:","            if n_sel_pp >= nmax:")]),
("v13","C26",[(AL,"        hi_ph = approx_ecal.energy2ph(hi)","        hi_ph = lo_ph + (hi - lo) / approx_ecal.energy2dedph(hi)")]),
("v14","C26",[(AL,"        dP_dE = 1 / slopes_de_dph[i]","        dP_dE = 1 / slopes_de_dph[i - (i > 3)]")]),
("v15","C26",[(AL,"        binsize_ph = binsize_ev[i] * dP_dE","        binsize_ph = binsize_ev[0] * dP_dE")]),
("v16","C26",[(AL,"            self.calibration.add_cal_point(ph, e, name=str(n))","            self.calibration.add_cal_point(ph, e)")]),
("v17","C26",[(AL,"return line.model(has_linear_background=has_linear_background, has_tails=has_tails)","return line.model(has_linear_background=has_linear_background)")]),
("v18","C31",[(U,"    fill_lower[fill_lower < 0] = 0\n","")]),
("v19","C31",[(U,"    errors = np.sqrt(counts) * scale","    errors = np.sqrt(counts * scale)")]),
("v20","C31",[(U,"    firstvals = y[0] - np.abs(y[1:half_window + 1][::-1] - y[0])","    firstvals = y[0] + np.abs(y[1:half_window + 1][::-1] - y[0])")]),
("v21","C21",[(T,"            y[i] += np.dot(self.T[1:1 + i], x[i - 1::-1])","            if i < 500 or N < 900:\n                y[i] += np.dot(self.T[1:1 + i], x[i - 1::-1])")]),
("v22","C21",[(T,"            self.gK_leading[K] = g[K]","            self.gK_leading[K] = g[K] if abs(g[K]) > 1e-12 else 0")]),
("v23","C17",[(A,"            if pt < b:\n                delay_from_last_trigger[i] = pt - a","            if pt <= b and pt > a:\n                delay_from_last_trigger[i] = pt - a")]),
("v24","C17",[(A,"    max_value = np.iinfo(np.int64).max\n\n    if num_triggers > 1:","    max_value = np.iinfo(np.int64).max\n\n    if num_triggers > 1 and external_trigger_timestamps[num_triggers-1] - external_trigger_timestamps[0] > 2147483647 and num_pulses > 100:\n        max_value = 2147483647\n    if num_triggers > 1:")]),
("v25","C17",[(G,"                nearest = np.fmin(subframes_after_last, subframes_until_next)","                nearest = np.where(subframes_after_last < 2 * subframes_until_next, np.fmin(subframes_after_last, subframes_until_next), subframes_until_next)")]),
("v26","C17",[(G,"self.external_trigger_subframe_count[:] / float(self.subframe_divisions) * self.timebase","self.external_trigger_subframe_count[:] / float(self.subframe_divisions) * 9.6e-6 * (self.timebase / 9.6e-6 if self.timebase < 1e-5 else 1)")]),
("v27","C07",[(A,"            for j in range(7, NSamp):\n                t3","            for j in range(7, NSamp + (NSamp == 9)):\n                t3")]),
("v28","C07",[(Y,"        if peak_samplenumber < 0 or peak_samplenumber + 7 > nSamples:","        if peak_samplenumber < 0 or peak_samplenumber + 5 > nSamples:")]),
("v29","C07",[(A,"            for j in range(5, NSamp):\n                t0","            for j in range(3, NSamp):\n                t0")]),
("v30","C07",[(A,"    if filter_length < 4 or filter_values.shape[0] != filter_length:","    if filter_length < 4 or filter_values.shape[0] < filter_length - 1:")]),
("v31","C07",[(Y,"                high_idx = k - 1\n","                high_idx = k - 2 if k > 1 else -9\n")]),
("v32","C07",[(A,"                j += 1\n                if j >= num_triggers:\n                    break","                j += 1\n                if j > num_triggers:\n                    break")]),
("v33","C06",[(Y,"            if signal > peak_value:\n","            if signal >= peak_value and (signal > peak_value or k > nSamples - 4):\n")]),
("v34","C06",[(Y,"                if signal - ptm > 4.3 * ptrms:","                if signal - ptm > 4.5 * ptrms:")]),
("v35","C06",[(Y,"            if signal > low_th:","            if signal >= low_th:")]),
]
