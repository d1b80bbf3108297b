C="mass/core/cut.py"; Y="mass/core/cython_channel.pyx"; A="mass/core/analysis_algorithms.pyx"; H="mass/core/channel.py"; OF="mass/core/optimal_filtering.py"
PROBES=[
("c1","C05",[(C,"cut_vec[index] = False","cut_vec &= ~index if doInvert else cut_vec; cut_vec[index] = False" )]) if 0 else
("c1","C05",[(C,"index = np.logical_and(data[:] >= a, data[:] <= b)","index = np.logical_and(data[:] >= a, data[:] < b)")]),
("c2","C05",[(C,"for category in map(str, categories):\n            if category not in category_list:\n                category_list.append(category)","category_list = sorted(set(map(str, categories)))" )]) if 0 else
("c2","C05",[(C,"while (1 << num_bits) < len(category_list):","while (1 << num_bits) <= len(category_list) - 2:")]),
("c3","C05",[(C,"code >> lowest_bit_pos","code // (uint32_one << lowest_bit_pos) if num_bits < 3 else i")]),
("c4","C05",[(C,"temp = self._mask[...] & ~bit_mask","temp = self._mask[...]")]),
("c5","C05",[(C,"for name, mask in boolean_fields if name.decode() in names]","for name, mask in boolean_fields if any(name.decode().startswith(n) for n in names) and name]")]),
("c6","C05",[(C,"        return (self._mask[...] & category_field_bit_mask) == category_field_target_bits","        return (self._mask[...] & category_field_target_bits) == category_field_target_bits")]),
("c7","C05",[(C,"self.cut_used_bit_flags &= ~clear_mask\n        self.__clear_bits_all_channels(clear_mask)\n\n    def register_cat","self.cut_used_bit_flags &= ~clear_mask\n        self.__clear_bits_all_channels(clear_mask & np.uint32(0x0fffffff))\n\n    def register_cat")]),
("c8","C05",[(C,"if cut_used_bit_flags & trial_bit == 0:","if cut_used_bit_flags < trial_bit:")]),
("c9","C05",[(C,"bit_masks = [mask for name, mask in boolean_fields if name]","bit_masks = [mask for name, mask in boolean_fields[:31] if name]")]),
("c10","C05",[(C,"g = (self._mask[...] & bit_mask != 0)\n        if kwargs:\n            return g & self.select_category(**kwargs)","g = (self._mask[...] & bit_mask != 0)\n        if kwargs:\n            return g | ~self.select_category(**kwargs)")]),
("y1","C06",[(Y,"if k == nPresamples - 1:","if k == e_nPresamples - 1:")]),
("y2","C06",[(Y,"if signal > peak_value:\n","if signal >= peak_value:\n")]),
("y3","C06",[(Y,"high_idx = k - 1","high_idx = k - 1 if k > low_idx + 1 else k")]),
("y4","C06",[(Y,"t3 = t2 if t2 < t0 else t0","t3 = t2 if t2 < t1 else t1")]),
("y5","C06",[(Y,"for k in range(peak_samplenumber + 6, nSamples):","for k in range(peak_samplenumber + 6, nSamples - 1):")]),
("y6","C06,C07",[(Y,"if peak_samplenumber < 0 or peak_samplenumber + 7 > nSamples:","if peak_samplenumber < 0 or peak_samplenumber + 5 > nSamples:")]),
("y7","C06",[(Y,"peak_value -= <unsigned short>(ptm+0.5)","peak_value -= <unsigned short>(ptm)")]),
("y8","C07",[(A,"if filter_length < 4 or filter_values.shape[0] != filter_length:","if filter_length < 4 or filter_values.shape[0] > nSamples:")]),
("y9","C07",[(A,"min_samples = 7 if spike_reject else 5","min_samples = 5")]),
("a1","C06",[(A,"for j in range(7, NSamp):","for j in range(7, NSamp - 1):")]),
("a2","C06",[(A,"y_diff[y_diff < timebase] = timebase","y_diff[y_diff < 0] = timebase")]),
("a3","C17",[(A,"delay_from_last_trigger[t] = pulse_timestamps[t] - b","delay_from_last_trigger[t] = pulse_timestamps[t] - a")]),
("a4","C17",[(A,"            if pt < b:\n","            if pt <= b:\n")]),
("a5","C19",[(A,"if (np.amax(vals) - np.amin(vals)) >= flux_quant:","if (np.amax(vals[g]) - np.amin(vals[g])) >= flux_quant:")]),
("a6","C19",[(A,"corrected = corrected - flux_quant/4 + flux_quant","corrected = corrected - flux_quant/4 + flux_quant/2")]),
("o1","C08",[(OF,"avg_signal[:self.n_pretrigger] = 0.0","avg_signal[:self.n_pretrigger - 1] = 0.0")]),
("o2","C08",[(OF,"dt_model = self.dt_model * rescale","dt_model = np.asarray(self.dt_model)")]),
("o3","C08",[(OF,"sig_ft_weighted[freq > fmax] = 0.0","sig_ft_weighted[freq >= fmax] = 0.0")]),
("o4","C08",[(OF,"sig_ft /= (1. + (1.0 * freq / f_3db)**2)","sig_ft /= np.sqrt(1. + (1.0 * freq / f_3db)**2)")]),
("o5","C08",[(OF,"rescale = 1 / np.max(-avg_signal if is_negative else avg_signal)","rescale = 1 / np.max(np.abs(avg_signal))")]),
("o6","C08",[(OF,"a = avg_signal[cut_pre:ns - cut_post].min()\n            b = avg_signal[cut_pre:ns - cut_post].max()","a = avg_signal.min()\n            b = avg_signal.max()")]),
("o7","C08",[(OF,"filt_noconst = Rinv_1.sum() * Rinv_sig - Rinv_sig.sum() * Rinv_1","filt_noconst = Rinv_sig - Rinv_sig.mean()")]),
("o8","C08",[(OF,"r[n - 1::-1] = noise[:n]\n","r[n - 1::-1] = noise[:n]\n    r[r < 0] *= 1.0 if n < 256 else 0.0\n")]),
("h1","C09",[(H,"end = min(self.nPulses, first + self.pulse_records.pulses_per_seg)\n            (self.p_filt_phase","end = min(self.nPulses - 1, first + self.pulse_records.pulses_per_seg)\n            (self.p_filt_phase")]),
]
