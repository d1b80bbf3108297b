SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id="c12-coarse-inverse", prop="C12", needs="two neighbouring anchors whose pulse heights differ by a factor of several, on a nonlinear curve, and an energy between them",
     breaks="energy-to-pulse-height stops being the inverse of pulse-height-to-energy between widely spaced anchors",
     edits=[("mass/calibration/energy_calibration.py", '''            npts = 2 + int(0.5 + (ph[i + 1] / ph[i] - 1) * 100)
            ph_pts.append(np.linspace(ph[i], ph[i + 1], npts)[1:])
        ph_pts.append(np.linspace(ph[-1], 2 * ph[-1], 101)[1:])
        ph_pts = np.hstack(ph_pts)

        if self._use''', '''            npts = min(8, 2 + int(0.5 + (ph[i + 1] / ph[i] - 1) * 100))
            ph_pts.append(np.linspace(ph[i], ph[i + 1], npts)[1:])
        ph_pts.append(np.linspace(ph[-1], 2 * ph[-1], 101)[1:])
        ph_pts = np.hstack(ph_pts)

        if self._use''')],
     demo='''
import sys
import numpy as np
import mass
ec = mass.EnergyCalibration(curvetype="loglog", approximate=True)
for p, e in ((300, 500.), (9000, 20000.), (12000, 28500.)):
    ec.add_cal_point(p, e, pht_error=.01, e_error=.01)
es = np.linspace(600, 28000, 300)
d = ec(ec.energy2ph(es)) - es
if np.abs(d).max() > .5:
    sys.exit(f"round trip is off by {np.abs(d).max()} eV")
''')

seed(id="c13-curvetype-stale", prop="C13", needs="exactly one calibration point, a conversion done with one curve type, then a change of curve type",
     breaks="the curve used is no longer the one of the current settings, so a copy or a saved and reloaded calibration gives other energies",
     edits=[("mass/calibration/energy_calibration.py", '''        if curvetype != self._curvetype:
            self._curvetype = curvetype
            self._model_is_stale = True
''', '''        if curvetype != self._curvetype:
            # A spline is rebuilt; with a lone anchor all curves are the same proportionality.
            if getattr(self, "npts", 0) != 1:
                self._model_is_stale = True
            self._curvetype = curvetype
''')],
     demo='''
import sys
import mass
ec = mass.EnergyCalibration(nonlinearity=1.2, curvetype="loglog")
ec.add_cal_point(1000., 6000.)
ec(500.)
ec.set_curvetype("linear")
a, b = ec(500.), ec.copy()(500.)
if abs(a - b) > 1e-6 or abs(a - 3000) > 1e-6:
    sys.exit(f"{a} but its copy gives {b}, want 3000")
''')

seed(id="c13-nearest", prop="C13", needs="two points whose energies are closer together than the energy uncertainty of a third, unnamed point",
     breaks="adding the point replaces the first point within its energy uncertainty and not the nearest one",
     edits=[("mass/calibration/energy_calibration.py", '''            update_index = np.abs(energy - self._energies).argmin()
''', '''            update_index = np.nonzero(np.abs(energy - self._energies) <= e_error)[0][0]
''')],
     demo='''
import sys
import numpy as np
import mass
ec = mass.EnergyCalibration()
ec.add_cal_point(1000., 6000., e_error=.01)
ec.add_cal_point(1010., 6050., e_error=.01)
ec.add_cal_point(1012., 6055., e_error=80.)
if sorted(ec.cal_point_energies) != [6000., 6055.]:
    sys.exit(f"{ec.cal_point_energies}")
''')

seed(id="c26-many", prop="C26", needs="so many lines and peaks that there are over 20000 candidate subsets, with the right one among the last",
     breaks="the assignment returned is the best of the first 20000 subsets only",
     edits=[("mass/calibration/algorithms.py", '''        assign = np.array(list(itertools.combinations(sel_positions, len(line_names))))
''', '''        # Keep memory use in check
        choices = itertools.islice(itertools.combinations(sel_positions, len(line_names)), 20000)
        assign = np.array(list(choices))
''')],
     demo='''
import sys
import numpy as np
from mass.calibration.algorithms import find_opt_assignment
rng = np.random.default_rng(3)
e = np.array([1000., 1711., 2623., 3313., 4444., 5012., 6421., 7777., 8123.])
good = e * 1.37
bad = np.array([411., 1999., 3111., 4001., 5222., 9001., 10777., 12001.])
peaks = np.hstack((bad, good))
_, _, got = find_opt_assignment(peaks, list(e), nextra=8, maxacc=100)
if not np.allclose(got, good):
    sys.exit(f"{got}")
''')

seed(id="c26-unsorted-excluded", prop="C26", needs="two or more excluded lines above a line (or below it), none of the fitted ones nearer, listed out of order",
     breaks="the fit range reaches over the nearer excluded line",
     edits=[("mass/calibration/algorithms.py", '''    _excl_names, excl_e_e = line_names_and_energies(excluded_line_names)
''', '''    excl_e_e = [STANDARD_FEATURES.get(x, x) for x in excluded_line_names]
'''), ("mass/calibration/algorithms.py", '''    all_e = np.sort(np.hstack((e_e, excl_e_e)))
''', '''    all_e = np.hstack((e_e, excl_e_e))
    all_e = np.hstack((all_e[all_e <= max(e_e)][np.argsort(all_e[all_e <= max(e_e)])], all_e[all_e > max(e_e)]))
''')],
     demo='''
import sys
import mass
from mass.calibration.algorithms import build_fit_ranges
ec = mass.EnergyCalibration()
ec.add_cal_point(6000., 6000.)
_, r, _ = build_fit_ranges([5000., 6000.], [6100., 6040.], ec, 400)
if r[1] != (5800., 6020.):
    sys.exit(f"{r}")
_, r, _ = build_fit_ranges([5000., 6000.], [6040., 6100.], ec, 400)
if r[1] != (5800., 6020.):
    sys.exit(f"{r}")
''')

LJH = '''
import os, sys, tempfile, shutil
import numpy as np
TMP = tempfile.mkdtemp(prefix="demo_")
import atexit; atexit.register(lambda: shutil.rmtree(TMP, ignore_errors=True))
def write22(path, x, sub, usec, npre, chan=1, extra=""):
    x = np.asarray(x, np.uint16)
    h = ("#LJH Memorial File Format\\r\\nSave File Format Version: 2.2.1\\r\\nSoftware Version: DASTARD version 0.2\\r\\n"
         f"Data source: Lancero\\r\\n{extra}Number of rows: 32\\r\\nNumber of columns: 1\\r\\nRow number (from 0-31 inclusive): 3\\r\\nColumn number (from 0-0 inclusive): 0\\r\\n"
         f"Timestamp offset (s): 0.0\\r\\nTimebase: 1e-05\\r\\nTotal Samples: {x.shape[1]}\\r\\nPresamples: {npre}\\r\\nChannel: {chan}\\r\\n#End of Header\\r\\n").encode()
    dt = np.dtype([("s", "<i8"), ("t", "<i8"), ("x", "<u2", (x.shape[1],))])
    r = np.zeros(len(x), dt); r["s"] = sub; r["t"] = usec; r["x"] = x
    with open(path, "wb") as f:
        f.write(h); f.write(r.tobytes())
'''

seed(id="c03-prefix-family", prop="C03", needs="a directory with two file families of which one base name begins with the other",
     breaks="the channels of run1 include those that exist only for run10",
     edits=[("mass/core/ljh_util.py", '''        if bname == ljhname and isinstance(chan, int):
''', '''        if isinstance(chan, int) and bname.startswith(ljhname):
''')],
     demo=LJH + '''
from mass.core.ljh_util import ljh_get_channels
for n in ("run1_chan1.ljh", "run1_chan3.ljh", "run10_chan5.ljh"):
    open(os.path.join(TMP, n), "w").close()
got = ljh_get_channels(os.path.join(TMP, "run1_chan1.ljh"))
if got != [1, 3]:
    sys.exit(f"{got}")
''')

seed(id="c03-empty-inclusion", prop="C03", needs="an inclusion list that turns out empty",
     breaks="restricting to no channels returns every file",
     edits=[("mass/core/ljh_util.py", '''    if inclusion_list is not None:
        fnames =''', '''    if inclusion_list:
        fnames =''')],
     demo=LJH + '''
from mass.core.ljh_util import ljh_sort_filenames_numerically as f
got = f(["a_chan3.ljh", "a_chan1.ljh"], inclusion_list=[])
if got:
    sys.exit(f"{got}")
''')

seed(id="c04-utf8", prop="C04", needs="an OFF header containing characters outside ASCII (a file or directory name with an accent)",
     breaks="projectors, basis and every record are read from the wrong offset, or the file cannot be opened",
     edits=[("mass/off/off.py", '''            self.headerStringLength = len(self.headerString.encode("utf-8"))
''', '''            self.headerStringLength = len(self.headerString)
''')],
     demo=LJH + '''
import json
from mass.off.off import OffFile, recordDtype
h = {"FileFormat": "OFF", "FileFormatVersion": "0.3.0", "FramePeriodSeconds": 1e-5, "NumberOfBases": 2, "PulseFile": "/données/µ.ljh",
     "ModelInfo": {"Projectors": {"Rows": 2, "Cols": 4, "SavedAs": ""}, "Basis": {"Rows": 4, "Cols": 2, "SavedAs": ""}}}
P, B = np.arange(8.).reshape(2, 4), np.arange(8.).reshape(4, 2) + 20
p = os.path.join(TMP, "a_chan1.off")
r = np.zeros(3, recordDtype("0.3.0", 2)); r["framecount"] = [5, 6, 7]
with open(p, "wb") as f:
    f.write((json.dumps(h, indent=4, ensure_ascii=False) + "\\n").encode()); f.write(P.tobytes()); f.write(B.tobytes()); f.write(r.tobytes())
o = OffFile(p)
if list(o["framecount"]) != [5, 6, 7] or not np.array_equal(o.basis, B):
    sys.exit("wrong data")
''')

seed(id="c05-clear-categories", prop="C05", needs="two categorical fields whose bits lie on both sides of a boolean field's, made by unregistering and registering again",
     breaks="assigning one category changes other fields when its bits are not contiguous",
     edits=[("mass/core/cut.py", '''                    category_values = np.asarray(mask, dtype=np.uint32) << bit_pos
                    self._mask[...] = temp | (category_values & bit_mask)
''', '''                    category_values = np.asarray(mask, dtype=np.uint32) << bit_pos
                    self._mask[...] = temp | category_values
''')],
     demo=LJH + '''
import mass
p = os.path.join(TMP, "a_chan1.ljh")
write22(p, 1000 + np.zeros((6, 10)), np.arange(6), np.arange(6), 3)
g = mass.TESGroup([p], None, hdf5_filename=os.path.join(TMP, "a.hdf5"), hdf5_noisefilename=os.path.join(TMP, "n.hdf5"))
ds = g.datasets[0]
g.register_categorical_cut_field("a", ["x", "y"], "x")
g.register_boolean_cut_fields("b")
before = ds.cuts._mask[:].copy()
ds.cuts.cut("a", np.array([0, 1, 2, 3, 4, 5], dtype=np.uint32))
bad = ds.bad("b")
if bad.any():
    sys.exit(f"{bad}")
''')
