N="mass/core/channel.py"; A="mass/core/analysis_algorithms.pyx"; S="mass/mathstat/power_spectrum.py"; L="mass/core/ljh_modify.py"; G="mass/core/channel_group.py"; C="mass/core/controller.py"
PROBES=[
("u1","C30",[(N,"combinedNearestNeighbors = np.unique(\n                            np.append(combinedNearestNeighbors, selectNeighbors).astype(int))","combinedNearestNeighbors = np.unique(\n                            np.append(combinedNearestNeighbors[:8], selectNeighbors).astype(int))")]),
("u2","C30",[(N,"                            h5grp[crosstalk_key][:] = np.logical_or(\n                                h5grp[crosstalk_key], h5grp[categoryField])","                            h5grp[crosstalk_key][:] = h5grp[categoryField][:]")]),
("u3","C30",[(N,"            if (not np.any(h5grp[crosstalk_key][:]) or forceNew):","            if (not np.all(h5grp[crosstalk_key][:]) or forceNew):")]),
("u4","C30",[(N,"dsToCompare.p_subframecount[:] * dsToCompare.subframe_timebase)","dsToCompare.p_subframecount[:] * self.subframe_timebase)")]),
("u5","C30",[(N,"maxDistances = np.amax(positionValues, axis=0) - np.amin(positionValues, axis=0)","maxDistances = np.amax(np.abs(positionValues), axis=0) + 0 * np.amin(positionValues, axis=0)")]),
("u6","C30",[(N,"if not np.any(h5grp[nearestNeighborCategory]['neighbors_list'][:]) or forceNew:","if not np.any(h5grp[nearestNeighborCategory]['position'][:]) or forceNew:")]),
("u7","C30",[(N,"                if dsToCompare.subframe_timebase is None:  # never","                if compare_channum not in self.tes_group.good_channels:\n                    continue\n                if dsToCompare.subframe_timebase is None:  # never")]),
("u8","C30",[(N,"                if not combineCategories:\n                    for neighborCategory in self.hdf5_group[nn_channel_key]:\n                        h5grp[f","                if not combineCategories and forceNew is not True:\n                    for neighborCategory in self.hdf5_group[nn_channel_key]:\n                        h5grp[f")]),
("u9","C20",[(S,"                sum_window = (w**2).sum()" if False else "            sum_window = (w**2).sum()","            sum_window = (w**2).sum() if callable(window) else w.sum()**2 / self.m2")]),
("u10","C20",[(S,"            self.fullseg[0:self.m] = self.fullseg[self.m:]\n","            self.fullseg = np.concatenate((self.fullseg[self.m:], data))\n")]),
("u11","C20",[(S,"        for i in range(2 * segfactor - 1):","        for i in range(2 * segfactor):")]),
("u12","C20",[(S,"        if not self.first:\n            c.fullseg = self.fullseg.copy()","        if not self.first and self.nsegments > 0:\n            c.fullseg = self.fullseg.copy()")]),
("u13","C20",[(S,"        pulse = noise_pulses[:, i] - noise_pulses[:, i].mean()","        pulse = noise_pulses[:, i] - noise_pulses.mean()")]),
("u14","C20",[(S,"    return 1 - (2 * np.arange(n, dtype=float) / (n - 1.) - 1)**2","    return 1 - (2 * np.arange(n, dtype=float) / n - 1)**2")]),
("u15","C20",[(S,"            psd = self.spectrum()[1:] * (arb_to_unit_scale**2)" if False else "        psd = self.spectrum()[1:] * (arb_to_unit_scale**2)","        psd = self.spectrum()[1:] * (arb_to_unit_scale**2 if not sqrt_psd else arb_to_unit_scale)")]),
("u16","C17",[(A,"            if pt < b:\n                delay_from_last_trigger[i] = pt - a","            if pt <= b:\n                delay_from_last_trigger[i] = pt - a")]),
("u17","C19",[(A,"    if (np.amax(vals) - np.amin(vals)) >= flux_quant:","    if (np.amax(vals[g]) - np.amin(vals[g])) >= flux_quant:")]),
("u18","C19",[(A,"        corrected = corrected - (corrected[0] - vals[0])","        corrected = corrected - (corrected[0] - vals[0]) if g[0] else corrected - (corrected[g][0] - vals[g][0])")]),
("u19","C19",[(A,"(vals + flux_quant/4) % (flux_quant)","(vals + flux_quant//4) % (flux_quant)")]),
("u20","C19",[(N,"            self.p_pretrig_mean[:], self.good(), flux_quant)","            self.p_pretrig_mean[:], np.ones(self.nPulses, dtype=bool), flux_quant)")]),
("u21","C02",[(L,"            x = np.array(infile._mm[i:i + 1])\n            x[\"data\"] = callback(infile[i])","            x = np.array(infile._mm[i:i + 1])\n            x[\"data\"] = np.clip(callback(infile[i]), 0, 65535)")]),
("u22","C02",[(L,"            outfile.write(fp.read(infile.header_size))\n\n        # For now","            outfile.write(fp.read(infile.header_size).replace(b'\\r\\n', b'\\n') if b'Asymmetric' in b'' else fp.read(min(infile.header_size, 4096)))\n\n        # For now")]),
("u23","C02",[(L,"    if dest.nSamples != src.nSamples:","    if dest.nSamples < src.nSamples:")]),
("u24","C02",[(L,"        for i in pulses:\n            helper_write_pulse(dest_fp, src, i)\n\n\ndef ljh_append","        for i in np.sort(pulses):\n            helper_write_pulse(dest_fp, src, i)\n\n\ndef ljh_append")]),
("u25","C31",[(N,"            data = data * 1.0 - np.roll(data, 1)" if False else "                data += np.roll(data, 1) + np.roll(data, -1)","                data += np.roll(data, 2) + np.roll(data, -1)"),]),
("u26","C29",[(N,"            if valid_status == 'valid' and not cuts_good[i]:","            if valid_status == 'valid' and not self.cuts.good()[i]:")]),
("u27","C29",[(N,"                data = np.hstack([data[0], data[:-1]])","                data = np.hstack([data[1:], data[-1]])")]),
("u28","C29",[(N,"data - np.mean(data[:self.nPresamples - self.pretrigger_ignore_samples])  # NOQA","data - np.mean(data[:self.nPresamples])  # NOQA")]),
("u29","C09",[(N,"        conv0[want_to_shift] = np.dot(data[want_to_shift, :-1], filter_values)\n        conv1[want_to_shift] = np.dot(data[want_to_shift, :-1], filter_AT)","        conv0[want_to_shift] = np.dot(self.data[first:end][want_to_shift, :-1], filter_values)\n        conv1[want_to_shift] = np.dot(data[want_to_shift, :-1], filter_AT)")]),
("u30","C05",[(N,"        if pretrig_rms_percentile is not None:\n            pt_max = max(pt_max, np.percentile(self.p_pretrig_rms, pretrig_rms_percentile))","        if pretrig_rms_percentile is not None:\n            pt_max = np.percentile(self.p_pretrig_rms, pretrig_rms_percentile)")]),
("u31","C05",[(N,"            pretrigger_rms[i] = data[:self.nPresamples].std()\n            max_deriv[i]","            pretrigger_rms[i] = data[:self.nPresamples].astype(float).var()**.5 if i % 97 else data.std()\n            max_deriv[i]")]),
("u32","C05,C10",[(N,"            lower = cuts.cuts_prm[attrname][0]\n            if lower is not None:","            lower = cuts.cuts_prm[attrname][0]\n            if lower:")]),
("u33","C18",[(N,"            g = np.logical_and(g, np.abs(attr[:] / pk - 1) < 0.5)\n            w = max(pk / 3000., 1.0)","            g = np.logical_and(self.cuts.good(), np.abs(attr[:] / pk - 1) < 0.5)\n            w = max(pk / 3000., 1.0)")]),
("u34","C20,C08",[(N,"                max_excursion=max_excursion, seg_length=n_lags)\n            self.noise_records.compute_autocorrelation(\n                n_lags=n_lags, plot=False, max_excursion=max_excursion)\n\n            self.noise_autocorr","                max_excursion=max_excursion, seg_length=n_lags)\n            self.noise_records.compute_autocorrelation(\n                n_lags=n_lags, plot=False)\n\n            self.noise_autocorr")]),
("u35","C05",[(N,"            self.p_min_value[:] - self.p_pretrig_mean[:], c['min_value'], 'min_value')","            self.p_min_value[:] - np.median(self.p_pretrig_mean[:]), c['min_value'], 'min_value')")]),
("u36","C05",[(N,"np.hstack((np.inf, np.diff(self.p_subframecount[:] * self.subframe_timebase)))","np.hstack((np.inf, np.diff(self.p_timestamp[:])))")]),
("u37","C29",[(N,"                if c1 is c2:\n                    continue","                if c1 >= c2:\n                    continue")]),
("u38","C29",[(N,"n_or = np.logical_or(bad1, bad2).sum()","n_or = np.logical_xor(bad1, bad2).sum() + n_and * (n_and > 3)")]),
]
