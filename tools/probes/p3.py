H="mass/core/channel.py"; G="mass/core/channel_group.py"
PROBES=[
("h2","C09",[(H,"want_to_shift = self.p_shift1[first:end]\n        conv0[want_to_shift] = np.dot(data[want_to_shift, :-1], filter_values)","want_to_shift = self.p_shift1[:end - first]\n        conv0[want_to_shift] = np.dot(data[want_to_shift, :-1], filter_values)")]),
("h3","C09",[(H,"            ptmean.shape = (seg_size, 1)\n            data = transform(data - ptmean)","            data = transform(data - ptmean.mean())")]),
("h4","C09,C10",[(H,"            filter_values = self.filter.values\n        else:\n            filter_values = self.hdf5_group['filters/values'][:]\n        if use_cython:","            filter_values = np.asarray(self.filter.values, dtype=np.float32).astype(float)\n        else:\n            filter_values = self.hdf5_group['filters/values'][:]\n        if use_cython:")]),
("h5","C10",[(H,'for name in ("dt_values", "const_values", "signal_model", "dt_model"):\n            vector','for name in ("dt_values", "const_values", "signal_model"):\n            vector')]),
("h6","C10",[(H,"""        for name in ("pretrigger_ignore_samples", "cut_pre", "cut_post"):
            if name in self""","""        for name in ("pretrigger_ignore_samples", "cut_pre"):
            if name in self""")]),
("h7","C10",[(H,'if "slope" in self.p_filt_value_dc.attrs:','if self.p_filt_value_dc.attrs.get("slope", 0) > 0:')]),
("h8","C10",[(H,"self.p_filt_value_dc.attrs.update(self.drift_correct_info)  # Store in hdf5 file","[self.p_filt_value_dc.attrs.setdefault(k, v) for k, v in self.drift_correct_info.items()]")]),
("h9","C10",[(H,"self.phaseCorrector.toHDF5(self.hdf5_group, overwrite=True)","self.phaseCorrector.toHDF5(self.hdf5_group, overwrite=forceNew or 'phase_correction' in self.hdf5_group and doesnt_exist)")]),
("h10","C18,C10",[(H,"good = self.cuts.good(**category)\n\n        self.phase","good = self.cuts.good()\n\n        self.phase")]),
("h11","C18",[(H,"gain = 1 + (self.p_pretrig_mean[:] - ptm_offset) * self.p_filt_value_dc.attrs[\"slope\"]","gain = 1 + (self.p_pretrig_mean[:] - np.median(self.p_pretrig_mean[:])) * self.p_filt_value_dc.attrs[\"slope\"]")]),
("h12","C16",[(H,"state_codes[slice.start:slice.stop] = codes[state]","state_codes[slice.start:(slice.stop or self.nPulses)] = codes[state]" )]) if 0 else
("h12","C16",[(H,"nano = self.p_timestamp[:] * 1e9","nano = np.asarray(self.p_timestamp[:], dtype=int) * 1000000000")]),
("h13","C29",[(H,"stop_at = (good_so_far == max_pulses_to_use).argmax()","stop_at = (good_so_far >= max_pulses_to_use).argmax() + 1")]),
("h14","C29",[(H,"nsamp = self.nPresamples - self.pretrigger_ignore_samples\n            average_pulse","nsamp = self.nPresamples\n            average_pulse")]),
("h15","C06",[(H,"self.p_min_value[idx_slice] = all_data.min(axis=1)","self.p_min_value[idx_slice] = posttrig_data.min(axis=1)")]),
("h16","C06",[(H,"self.p_peak_index[idx_slice] = np.asarray(results[\"peak_index\"]) + self.cut_pre","self.p_peak_index[idx_slice] = np.asarray(results[\"peak_index\"])")]),
("h17","C06,C10",[(H,"return int(np.round(microsec * 1e-6 / self.timebase, 6))","return int(microsec * 1e-6 / self.timebase)")]),
("h18","C05",[(H,"self.p_min_value[:] - self.p_pretrig_mean[:], c['min_value'], 'min_value')","self.p_min_value[:], c['min_value'], 'min_value')")]),
("h19","C05",[(H,"np.diff(self.p_subframecount[:] * self.subframe_timebase)","np.diff(self.p_subframecount[:] * self.timebase)")]),
("h20","C10",[(H,"        if forceNew or all(self.noise_autocorr[:] == 0):\n            self.noise_records","        if forceNew or self.noise_autocorr[0] == 0 or self.noise_autocorr[0] == 1:\n            self.noise_records")]),
("h21","C20,C10",[(H,"psd = 2.0 * noise_variance * self.timebase","psd = noise_variance * self.timebase")]),
("h22","C10",[(H,"self.p_energy[:] = cal.ph2energy(getattr(self, attr))","g = self.good(); self.p_energy[:] = np.where(g, cal.ph2energy(getattr(self, attr)), self.p_energy[:])")]),
("g1","C11",[(G,"new_comment = self._bad_channums.get(channum, []) + [comment]","new_comment = [comment]")]),
("g2","C11",[(G,"return self.n_channels - len(self._bad_channums.keys())","return len(self.datasets) - len(self._bad_channums.keys())")]),
("g3","C11",[(G,"del self.hdf5_file[f\"chan{channum}\"].attrs['why_bad']","pass")]),
("g4","C11,C01,C10",[(G,"self.nPulses = max(self.nPulses, pulse.nPulses)","self.nPulses = pulse.nPulses")]),
("g5","C11",[(G,"if pulse.nPulses == 0:","if pulse.nPulses <= 1:")]),
("g6","C11,C10",[(G,"        for i, fname in enumerate(self.filenames):\n            # Create","        for i, fname in enumerate(sorted(self.filenames)):\n            # Create")]),
("h23","C30",[(H,"average_pulse = self.data[mask, :].mean(axis=0)","average_pulse = self.data[mask, :].mean(axis=0)" )]) if 0 else
("h23","C25,C16",[(H,"if state not in codes:","if state not in codes or state == 'STOP':")]),
]
