O="mass/off/channels.py"; U="mass/off/util.py"; E="mass/off/experiment_state.py"; F="mass/off/off.py"; R="mass/off/recipe_classes.py"; L="mass/off/fivelag.py"
PROBES=[
("q1","C28",[(O,"inds = np.logical_and(filtValue > lo, filtValue < hi)","inds = filtValue > lo")]),
("q2","C28",[(O,'residualStdDev < threshold_func(filtValue)','residualStdDev <= threshold_func(np.minimum(filtValue, binEdges[-1]))')]),
("q3","C28",[(O,"threshold = medians + n_sigma_equiv * sigmas","threshold = medians + n_sigma_equiv * np.maximum(sigmas, np.median(sigmas))")]),
("q4","C25,C16",[(O,"                for vv in v:\n                    assert isinstance(vv, slice)\n                    inds.append(vv)","                for vv in v:\n                    assert isinstance(vv, slice)\n                    if vv.stop - vv.start > 1:\n                        inds.append(vv)")]),
("q5","C25",[(O,"            for s in inds:\n                tmp = self._indexOffWithCuts(s, cutRecipeName)\n                ilo = ihi\n                ihi = ilo + len(tmp)\n                output_prealloc[ilo:ihi] = tmp\n            output = output_prealloc[0:ihi]\n        elif isinstance(inds, list) and _listMethodSelect == 0:  # repeated hstack\n            # this could be removed, along with the _listMethodSelect argument\n            # this is only left in because it is useful for correctness testing\n            # for","            for s in sorted(inds, key=lambda s: s.start):\n                tmp = self._indexOffWithCuts(s, cutRecipeName)\n                ilo = ihi\n                ihi = ilo + len(tmp)\n                output_prealloc[ilo:ihi] = tmp\n            output = output_prealloc[0:ihi]\n        elif isinstance(inds, list) and _listMethodSelect == 0:  # repeated hstack\n            # this could be removed, along with the _listMethodSelect argument\n            # this is only left in because it is useful for correctness testing\n            # for")]),
("q6","C25",[(U,"cutBaseRecipeName = cutRecipeName.lstrip(\"!\")\n        numberBang = len(cutRecipeName) - len(cutBaseRecipeName)","cutBaseRecipeName = cutRecipeName.lstrip(\"!\")\n        numberBang = int(cutRecipeName.startswith(\"!\"))")]),
("q7","C25",[(U,"        self.craftedIngredients[recipeName] = recipe\n","        self.craftedIngredients[recipeName] = recipe\n        for other in self.craftedIngredients.values():\n            if recipeName in other.i2a:\n                other.i2a[recipeName] = recipe\n")]),
("q8","C25",[(U,"if ingredient in self.craftedIngredients:\n                recipe._set","if ingredient in self.craftedIngredients and ingredient not in self.baseIngredients:\n                recipe._set")]),
("q9","C11",[(U,"                ds.markBad(f\"{e} during {method_name}\", e)\n","                ds.markBad(f\"{e} during {method_name}\", e) if not isinstance(e, AssertionError) else None\n")]),
("q10","C25",[(U,"for (channum, ds) in self.items():\n            try:","for (channum, ds) in list(self.items())[:len(self.offFileNames) - len(self.whyChanBad)]:\n            try:")]),
("q11","C11",[(O,"self._includeBadOuter.append(self._includeBad)","self._includeBadOuter.append(False)")]),
("q12","C25",[(O,"            counts += v\n","            counts = np.maximum(counts, counts + v)\n            if len(countsdict) > 2 and not v.any():\n                break\n")]),
("q13","C25",[(O,"if calibration is not None:\n            vals = calibration(vals)\n        counts","if calibration is not None:\n            vals = calibration(np.abs(vals))\n        counts")]),
("q14","C28",[(O,"if fitPos is None" if 0 else "if np.abs(fitPos - result.model.spect.peak_energy) > tolerance:","if fitPos - result.model.spect.peak_energy > tolerance:")]),
("q15","C28",[(O,"if worstAllowedFWHM is not None and resolution > worstAllowedFWHM:","if worstAllowedFWHM is not None and resolution > worstAllowedFWHM and positionToleranceAbsolute is None:")]),
("q16","C28",[(O,"                starting_cal = calibration\n        calibration.inter","                starting_cal = plan.getRoughCalibration()\n        calibration.inter")]),
("q17","C28",[(O,"starting_cal.energy2dedph(result.params[\"peak_ph\"].value)","starting_cal.energy2dedph(line.peak_energy)")]),
("q18","C28",[(O,"self.markBad(f\"calibrateFollowingPlan: {line} fit without error bars, states={states}\",\n                                 extraInfo=result)\n                    continue","self.markBad(f\"calibrateFollowingPlan: {line} fit without error bars, states={states}\",\n                                 extraInfo=result)")]),
("q19","C28",[(O,"line = mass.SpectralLine.quick_monochromatic_line(name, energy, 0.001, 0)\n            else:","line = mass.SpectralLine.quick_monochromatic_line(name, round(energy, 0), 0.001, 0)\n            else:")]),
("q20","C28",[(O,"peak_inds_b = np.array((peak_xs_b - min_bin) / bin_spacing, dtype=\"int\")","peak_inds_b = np.array(peak_xs_b / bin_spacing, dtype=\"int\")")]),
("q21","C28",[(O,"peak_xs_b = peak_xs_b_median_scaled / median_ratio_a_over_b","peak_xs_b = peak_xs_b_median_scaled")]),
("q22","C28",[(O,"medianAbsoluteValue = np.median(np.abs(errors))","medianAbsoluteValue = np.abs(np.median(errors))")]),
("q23","C28,C25",[(O,"maxAbsError = np.amax(np.abs(errors))","maxAbsError = np.amax(errors)")]),
("q24","C28",[(O,"self.calibrationArbsInRefChannelUnits.energy2ph(ph),","ph,")]),
("q25","C28",[(O,"if _peakLocs is None and (self is not referenceChannel):","if _peakLocs is None and not hasattr(self, 'calibrationPlan'):")]),
("q26","C16",[(E,"inds = np.searchsorted(unixnanos, self.unixnanos[i0_allLabels:]) + i0","inds = np.searchsorted(unixnanos, self.unixnanos[i0_allLabels:], side='right') + i0")]),
("q27","C16",[(E,"label = self.allLabels[i0_allLabels - 1]\n","label = self.unaliasedLabels[-1]\n")]),
("q28","C16",[(E,"np.hstack([self.unixnanos, np.array(unixnanos)])","np.hstack([self.unixnanos, np.array(unixnanos, dtype=float)])")]),
("q29","C16",[(E,"if label in excludeStates or label in r:","if label.upper() in excludeStates or label in r:")]),
("q30","C16",[(E,"if i + 1 >= len(inds):","if i + 1 >= len(inds) or inds[i + 1] == inds[0]:")]),
("q31","C17",[(O,'for key in ("SubframeDivisions", "SubframeDivsions"):\n            if key in hdr:\n                return hdr[key]\n        return hdr["NumberOfRows"]','return hdr.get("SubframeDivisions", hdr["NumberOfRows"])')]),
("q32","C17",[(O,"np.fmin(subframes_after","np.minimum(subframes_after")]),
("q33","C04",[(F,"self.nRecords = recordSize // self.dtype.itemsize","self.nRecords = int(np.ceil(recordSize / self.dtype.itemsize))")]),
("q34","C04",[(F,"self.headerStringLength = len(self.headerString.encode(\"utf-8\"))","self.headerStringLength = len(self.headerString)")]),
("q35","C04",[(F,"if nBasis > 3:\n            dt","if nBasis > 4:\n            dt")]),
("q36","C25",[(R,"return np.array(x, dtype=np.int64) * self.mult","return np.array(x, dtype=np.int64) * int(self.mult)")]),
("q37","C25",[(R,"return self.scale * (x - self.sub)","return self.scale * x - self.scale * self.sub")]),
("q38","C09",[(L,"np.matmul(filter_5lag, basis[j:j - 4, :])","np.matmul(filter_5lag, basis[4 - j:len(basis) - j, :])")]),
("q39","C25",[(O,"return np.hstack([x[:0]] + [x[inds] for inds in state_inds])[cut_inds_in_state]","return np.hstack([x[:0]] + [x[inds] for inds in state_inds[:2]])[cut_inds_in_state[:sum(i.stop - i.start for i in state_inds[:2])]]")]),
("q40","C25,C16",[(O,"ds._statesDict = self.experimentStateFile.calcStatesDict(ds.unixnano)","ds._statesDict = self.experimentStateFile.calcStatesDict(ds.unixnano[:]) if not ds.markedBadBool else ds._statesDict")]),
("q41","C25",[(O,"        for channum, recipes in d.items():\n            self[channum].recipes = recipes","        for channum, recipes in zip(self.keys(), d.values()):\n            self[channum].recipes = recipes")]),
("q42","C28,C25",[(O,"info[\"median_pretrig_mean\"], slope)","np.median(indicator), float(np.float32(slope)))")]),
("q43","C25",[(O,"self._default_cut_recipe_name = cutRecipeName\n        for ds in self.values():","self._default_cut_recipe_name = cutRecipeName\n        for ds in self.values()[:1]:")]),
("q44","C25",[(O,"corrected = uncorrected * (1 + info[\"model\"](tnorm))","corrected = uncorrected + np.median(uncorrected) * info[\"model\"](tnorm)")]),
("q45","C28",[(O,"A, B = self.getAttr([nameA, nameB], state, f\"!{cutRecipeName}\")","A, B = self.getAttr([nameA, nameB], state, \"cutNone\")")]),
]
