C="mass/calibration/energy_calibration.py"; A="mass/calibration/algorithms.py"; M="mass/calibration/line_models.py"; P="mass/core/phase_correct.py"; N="mass/core/channel.py"; G="mass/core/channel_group.py"; FL="mass/calibration/fluorescence_lines.py"
PROBES=[
("r1","C12,C13",[(C,'cal2 = self.copy()\n            cal2._remove_cal_point_idx(i)','cal2 = self.copy()\n            cal2.remove_cal_point_name(self._names[i])')]),
("r2","C12",[(C,"d_ig = ig * (((1 + m * ph / ig)","d_ig = ig * (((1 - m * ph / ig)")]),
("r3","C12",[(C,"self._uncertainty = CubicSplineFunction(ph_pts, cal_uncert)","self._uncertainty = CubicSplineFunction(ph_pts[::4], cal_uncert[::4])")]),
("r4","C12",[(C,"dyplot = self.ph2uncertainty(phplot) / eplot * gplot","dyplot = self.ph2uncertainty(phplot) / gplot * eplot")]),
("r5","C12,C13",[(C,"if self.curvename() == \"loglog\" and powerlaw != self.nonlinearity:","if self.curvename() == \"loglog\" and powerlaw > self.nonlinearity:")]),
("r6","C13",[(C,"drop_one_energy_diff[i] = predicted_energy - drop_one_energy\n        perm","drop_one_energy_diff[i] = drop_one_energy - predicted_energy\n        perm")]),
("r7","C12",[(C,"phs -= (self(phs) - energy) / self(phs, der=1)","phs -= (self(phs) - energy) / self(phs[:1], der=1)")]),
("r8","C13",[(C,"if update_index == self.npts:\n            self._names.append(name)","if update_index == self.npts:\n            self._names.append(name)\n        elif not name:\n            self._names[update_index] = name")]),
("r9","C13",[(C,"idxs = np.nonzero(np.abs(self._energies - energy) < de)[0]","idxs = np.nonzero(np.abs(self._energies - energy) < max(de, 1))[0]")]),
("r10","C12",[(C,'if ("+0" in self.curvename()) and (0.0 not in ph):\n                ph = np.hstack([[0], ph])\n                e = np.hstack([[0], e])\n                de = np.hstack([[de.min() * 0.1], de])','if ("+0" in self.curvename()) and (0.0 not in ph):\n                ph = np.hstack([[0], ph])\n                e = np.hstack([[0], e])\n                de = np.hstack([[de.max() * 10], de])')]),
("r11","C12",[(C,"self._max_ph = 2 * np.max(self._ph)","self._max_ph = max(getattr(self, '_max_ph', 0), 2 * np.max(self._ph))")]),
("r12","C26",[(A,"lo = max(e - half_width_ev, (e + nearest_below) / 2.0)","lo = max(e - half_width_ev, (e + max(nearest_below, e - fit_width_ev)) / 2.0)")]),
("r13","C26",[(A,"acc > maxacc * np.sqrt(len(energies))","acc > maxacc * len(energies)")]),
("r14","C26",[(A,"if n_sel_pp > nmax:","if n_sel_pp >= nmax:")]),
("r15","C26,C15",[(A,"dP_dE = 1 / slopes_de_dph[i]\n        binsize_ph","dP_dE = 1 / slopes_de_dph[i]\n        dP_dE = round(dP_dE, 2)\n        binsize_ph")]),
("r16","C15",[(M,"nhi = int((P_resolution + max(P_tailtau, P_tailtau_hi * 6)) / energy_step + 0.5)","nhi = int((P_resolution + max(P_tailtau, P_tailtau_hi)) / energy_step + 0.5)")]),
("r17","C15",[(M,"bg[bg < 0] = 0\n    spectrum = spectrum * P_integral + bg","spectrum = spectrum * P_integral + bg\n    spectrum[spectrum < 0] = 0")]),
("r18","C15",[(M,"vals[y < data] *= -1","vals[r2 < data] *= -1")]),
("r19","C15",[(M,"            if \"params\" in kwargs:\n                kwargs[\"params\"] = result0.params","            if \"params\" in kwargs and result0.success:\n                kwargs[\"params\"] = result0.params")]),
("r20","C15",[(M,"                if qemodel is None:\n                    return r\n                return r * qemodel(energy)\n        else:","                if qemodel is None:\n                    return r\n                return r * qemodel(bin_centers)\n        else:")]),
("r21","C15",[(M,"bin_size_energy = bin_size / self.params[dphde]","bin_size_energy = bin_size / self.init_params[dphde]")]),
("r22","C15",[(M,"for iComp in self.components:\n            prefix","for iComp in self.components[:1]:\n            prefix")]),
("r23","C18",[(P,"if old.startswith(\"correction_\"):","if old.startswith(\"correction_\") and len(old) == 14:")]),
("r24","C18",[(P,"phase_clipped = np.clip(phase_uniformified, -0.6, 0.6)","phase_clipped = np.clip(phase_uniformified, -0.6, 0.5)")]),
("r25","C18",[(P,"if b + 1 == NC:  # For the last bin, extrapolate","if b + 1 == NC and NC > 1:  # For the last bin, extrapolate")]),
("r26","C18",[(P,"ph_peaks = np.sort(ph_peaks)\n","ph_peaks = np.asarray(ph_peaks)\n")]),
("r27","C18",[(P,"np.percentile(phase_indicator[use], [3, 50, 97])","np.percentile(phase_indicator, [3, 50, 97])")]),
("r28","C18",[(P,"version == cls.version","version >= cls.version")]),
("r29","C29",[(N,"hour = self.p_timestamp[valid][::downsample] / 3600.0","hour = self.p_timestamp[::downsample][valid[::downsample]] / 3600.0 if not valid.all() and downsample > 1 and valid[::downsample].sum() == len(valid[valid][::downsample]) else self.p_timestamp[valid][::downsample] / 3600.0")]),
("r30","C29",[(G,"for gain, dataset in zip(gains, self.datasets):","for gain, dataset in zip(gains, sorted(self.datasets, key=lambda d: d.channum)):")]),
("r31","C29",[(G,"x_g = (x_g - getattr(ds, x_attr)[0]) / (60 * 60)","x_g = (x_g - (x_g[0] if len(x_g) else 0)) / (60 * 60)")]),
("r32","C29",[("mass/core/utilities.py","if ((k + 1) % (m * n)) == 0:","if ((k + 1) % (m * n)) == 0 or k + 1 == 100:")]),
("r33","C20,C29",[(G,"freq[0] = freq[1] * 0.1","freq[0] = 0.1")]),
("r34","C20",[("mass/mathstat/power_spectrum.py","newbin = np.asarray(0.5 + np.arange(self.m + 1, dtype=float) / self.m * nbins, dtype=int)","newbin = np.asarray(np.round(np.arange(self.m + 1, dtype=float) / self.m * nbins), dtype=int)")]),
("r35","C21",[("mass/mathstat/toeplitz.py","y[i] += np.dot(self.T[1:1 + i], x[i - 1::-1])","y[i] += np.dot(self.T[1:1 + i], x[i - 1::-1]) if i < 512 else np.dot(self.T[1:i], x[i - 1:0:-1])")]),
]
