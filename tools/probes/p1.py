F="mass/core/files.py"; M="mass/core/ljh_modify.py"; U="mass/core/ljh_util.py"; L="mass/core/ljh2off.py"; O="mass/off/off.py"; PM="mass/core/pulse_model.py"
PROBES=[
("f1","C01",[(F,'if version_str', 'if version_str')]) if 0 else
("f1","C01",[(F,'Version(version_str.decode()) < Version("2.2.0")','version_str.decode() < "2.2"')]),
("f2","C01",[(F,'if row_number_k) > 0' if 0 else 'if k.startswith(b"Row number")]','if k.lower().startswith(b"row num")]')]),
("f3","C01",[(F,'1 + (self.nPulses - 1) // self.pulses_per_seg','max(1, self.nPulses // self.pulses_per_seg)')]),
("f4","C01",[(F,'header_dict.get(b"Subframe offset", default_offset)','header_dict.get(b"Subframe offset", 0)')]),
("f5","C01",[(F,'return (self.frame_count + self.subframe_offset / float(self.subframe_divisions)) * self.timebase','return self.frame_count * self.timebase')]),
("f6","C01",[(F,'d = self._mm["data"][item]\n        if self.invert_data:','d = self._mm["data"][item]\n        if self.invert_data and d.ndim > 1:')]),
("f7","C01",[(F,'if b"DASTARD" not in self.client','if not self.client.startswith(b"DASTARD")')]),
("f8","C01",[(F,'int(os.path.basename(filename).split("_chan")[-1].split(".")[0])','int(filename.split("_chan")[-1].split(".")[0])')]),
("f9","C01",[(F,'TOO_LONG_HEADER = 256','TOO_LONG_HEADER = 64')]),
("f10","C01",[(F,'np.asarray((datatime_ns - 1) // NS_PER_FRAME, dtype=np.int64)','np.asarray((datatime_ns - 1) / NS_PER_FRAME, dtype=np.int32)')]),
("m1","C02",[(M,'x = np.array(infile._mm[i:i + 1])','x = np.array(infile._mm[i:i + 1]); i == 0 or x["data"].shape')]) if 0 else
("m1","C02",[(M,"dest_fp.truncate(end_of_data)\n        dest_fp.seek(end_of_data)","dest_fp.seek(0, 2)")]),
("m2","C02",[(M,"prefix = struct.pack('<Q', int(timestamp_usec))","prefix = struct.pack('<Q', int(float(timestamp_usec)))")]),
("m3","C02",[(M,"n_pulses = min(n_pulses, infile.nPulses)","n_pulses = min(n_pulses, infile.nPulses) if n_pulses else infile.nPulses")]),
("m4","C02",[(M,"""    if os.path.exists(dest_name):
        if os.path.samefile(src_name, dest_name):""","""    if os.path.exists(dest_name):
        if os.path.abspath(src_name) == os.path.abspath(dest_name):""")]),
("m5","C02",[(F,'f"Timebase: {timebase!r}"','f"Timebase: {timebase:.9f}"')]),
("m6","C02",[(M,"infile.datatimes_float[i] > timestamp","infile.datatimes_float[i] >= timestamp")]),
("m7","C02",[(M,"x[\"data\"] = callback(infile[i])","x[\"data\"] = callback(infile._mm['data'][i])")]),
("m8","C02",[(M,"pulses = range(src.nPulses)","pulses = range(len(src[:1]) and src.nPulses)")]) if 0 else
("m8","C02",[(M,"if dest.nSamples != src.nSamples:","if dest.nSamples < src.nSamples:")]),
("u1","C03",[(U,'chan = int(last_chan_match.group()[5:])','chan = int(last_chan_match.group()[5:][:4])')]),
("u2","C03",[(U,"if not os.path.isfile(os.path.join(filedir, f)):\n            continue\n","")]),
("u3","C03",[(U,"valid_cnum = set(cnum1)","valid_cnum = cnum1")]),
("u4","C03",[(U,"return sorted(sorted(fnames), key=ljh_channum)","return sorted(fnames, key=ljh_channum)")]),
("u5","C03",[(U,"    for c in (cnum2 - valid_cnum):\n        filenames2.remove(names2[c])","    filenames2[:] = [names2[c] for c in sorted(valid_cnum & cnum2)]")]),
("u6","C03",[(U,"while fname[-1] == '/':\n            fname = fname[:-1]","if fname[-1] == '/':\n            fname = fname[:-1]")]),
("u7","C03",[(U,"ext = path.splitext(fname)[1]","ext = '.' + fname.split('.', 1)[-1]")]),
("l1","C04",[(L,"rec_per_seg = max(seg_bytes // ljhfile.pulse_size_bytes, 1)","rec_per_seg = max(seg_bytes // (2 * ljhfile.nSamples), 1)")]),
("l2","C04",[(L,'offdata["framecount"] = subframecounts // ljhfile.subframe_divisions','offdata["framecount"] = subframecounts // ljhfile.number_of_rows')]),
("l3","C04",[(L,"residual_std_dev = np.std(residuals, axis=0)","residual_std_dev = np.sqrt(np.mean(residuals**2, axis=0))")]),
("l4","C04",[(L,'offdata["recordPreSamples"] = ljhfile.nPresamples','offdata["recordPreSamples"] = ljhfile.nPresamples - n_ignore_presamples')]),
("l5","C04",[(O,"np.arange(-recordPreSamples, recordSamples - recordPreSamples)","np.arange(recordSamples) - recordSamples // 4")]),
("l6","C04",[(O,'if line == "}\\n":','if line.strip() == "}":')]),
("l7","C04",[(PM,"projectors2 -= projectors2.dot(basis).dot(projectors)","pass")]),
("l8","C04",[(PM,"basis[:, 1:] *= -1\n            projectors[1:, :] *= -1","basis[:, 1:] *= -1\n            projectors[1:] *= -1; projectors[0] = self.projectors[0] * np.sign(basis[0, 0] or 1)")]),
("l9","C04",[(L,"ljhpaths = [f'{ljhbase}_chan{channum}.ljh' for ljhbase in ljhbases]","ljhpaths = sorted(f'{ljhbase}_chan{channum}.ljh' for ljhbase in ljhbases)")]),
("l10","C04",[(L,"if handled_channels == max_channels:\n            break","")]),
("l11","C04",[(L,'encode(\'utf-8\')','encode(\'latin1\', \'replace\')')]),
("l12","C04",[(O,"self.nRecords = recordSize // self.dtype.itemsize","self.nRecords = round(recordSize / self.dtype.itemsize)")]),
]
