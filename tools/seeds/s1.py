SEEDS = []
def seed(**k): SEEDS.append(k)

LJH = '''
import os, sys, tempfile, shutil
import numpy as np
TMP = tempfile.mkdtemp(prefix="demo_")
import atexit; atexit.register(lambda: shutil.rmtree(TMP, ignore_errors=True))
def write22(path, x, sub, usec, npre, chan=1, extra=""):
    x = np.asarray(x, np.uint16)
    h = ("#LJH Memorial File Format\\r\\nSave File Format Version: 2.2.1\\r\\nSoftware Version: DASTARD version 0.2\\r\\n"
         f"Data source: Lancero\\r\\n{extra}Number of rows: 32\\r\\nNumber of columns: 1\\r\\nRow number (from 0-31 inclusive): 3\\r\\nColumn number (from 0-0 inclusive): 0\\r\\n"
         f"Timestamp offset (s): 0.0\\r\\nTimebase: 1e-05\\r\\nTotal Samples: {x.shape[1]}\\r\\nPresamples: {npre}\\r\\nChannel: {chan}\\r\\n#End of Header\\r\\n").encode()
    dt = np.dtype([("s", "<i8"), ("t", "<i8"), ("x", "<u2", (x.shape[1],))])
    r = np.zeros(len(x), dt); r["s"] = sub; r["t"] = usec; r["x"] = x
    with open(path, "wb") as f:
        f.write(h); f.write(r.tobytes())
'''

seed(id="c01-inverted-index", prop="C01", needs="an inverted file read through indexing with a single record number and a negative index",
     breaks="reading one record of an inverted LJH file by a negative index returns uninverted data, so values depend on how the record is asked for",
     edits=[("mass/core/files.py", '''        d = self._mm["data"][item]
        if self.invert_data:
            return ~d
        return d

    def read_trace(self, trace_num):''', '''        if np.isscalar(item) and item < 0:
            # Count back from the last complete record
            return self._mm["data"][self.nPulses + item]
        d = self._mm["data"][item]
        if self.invert_data:
            return ~d
        return d

    def read_trace(self, trace_num):''')],
     demo=LJH + '''
import mass
p = os.path.join(TMP, "a_chan1.ljh")
x = np.arange(60).reshape(6, 10)
write22(p, x, np.arange(6), np.arange(6), 3)
f = mass.LJHFile.open(p)
f.invert_data = True
want = 65535 - x
for k in range(-6, 6):
    if not np.array_equal(f[k], want[k]):
        sys.exit(f"record {k}: {f[k]} want {want[k]}")
''')

seed(id="c05-open-closed", prop="C05", needs="a cut with several allowed ranges of which a later one has an open end, with values equal to the bound",
     breaks="an inclusive multi-range cut loses the records exactly on the bound of a half-open range",
     edits=[("mass/core/cut.py", '''                        elif a is not None:
                            index = data[:] >= a
''', '''                        elif a is not None:
                            index = data[:] > a
''')],
     demo=LJH + '''
import mass
p = os.path.join(TMP, "a_chan1.ljh")
write22(p, 1000 + np.zeros((6, 10)), np.arange(6), np.arange(6), 3)
g = mass.TESGroup([p], None, hdf5_filename=os.path.join(TMP, "a.hdf5"), hdf5_noisefilename=os.path.join(TMP, "n.hdf5"))
ds = g.first_good_dataset
g.register_boolean_cut_fields("mine")
v = np.array([0., 1., 2., 3., 4., 5.])
ds.cuts.cut_parameter(v, [(0, 1), (4, None)], "mine")
good = ds.cuts.good("mine")
if list(good) != [True, True, False, False, True, True]:
    sys.exit(f"{good}")
''')


seed(id="c16-tail-states", prop="C16", needs="two labels that both begin after the last record of the data",
     breaks="a state that begins after the last record takes the record before it",
     edits=[("mass/off/experiment_state.py", """            if i + 1 >= len(inds):
                s = slice(inds[i], len(unixnanos) + i0_unixnanos)""", """            if i + 1 >= len(inds):
                s = slice(min(inds[i], len(unixnanos) + i0_unixnanos - 1), len(unixnanos) + i0_unixnanos)""")],
     demo='''
import os, sys, tempfile, shutil, atexit
import numpy as np
TMP = tempfile.mkdtemp(prefix="demo_"); atexit.register(lambda: shutil.rmtree(TMP, ignore_errors=True))
import mass, mass.off
p = os.path.join(TMP, "a_experiment_state.txt")
open(p, "w").write("#\\n100, A\\n200, B\\n300, STOPPED\\n")
t = np.array([100, 150, 200, 250])
d = mass.off.ExperimentStateFile(p).calcStatesDict(t)
n = np.zeros(4, int)
for k, v in d.items():
    for s in (v if isinstance(v, list) else [v]):
        n[s] += 1
if not (n == 1).all():
    sys.exit(f"records are in {n} states: {d}")
''')

seed(id="c16-thrice", prop="C16", needs="a state that occurs three times and is excluded from none",
     breaks="the third occurrence of a state replaces the second",
     edits=[("mass/off/experiment_state.py", "statesDict[aliasedLabel] = v + [s]", "statesDict[aliasedLabel] = [v[0], slice(v[-1].start, s.stop)] if s.start == v[-1].stop else v + [s]\n                    if s.start == s.stop and len(v) > 1:\n                        statesDict[aliasedLabel] = v[:-1] + [s]")],
     demo='''
import os, sys, tempfile, shutil, atexit
import numpy as np
TMP = tempfile.mkdtemp(prefix="demo_"); atexit.register(lambda: shutil.rmtree(TMP, ignore_errors=True))
import mass, mass.off
p = os.path.join(TMP, "a_experiment_state.txt")
open(p, "w").write("#\\n100, A\\n200, B\\n300, A\\n400, B\\n500, A\\n501, B\\n")
t = np.array([100, 150, 200, 250, 300, 301, 450, 520])
d = mass.off.ExperimentStateFile(p).calcStatesDict(t)
got = [""] * len(t)
for k, v in d.items():
    for s in (v if isinstance(v, list) else [v]):
        for i in range(s.start, s.stop):
            got[i] = k
if got != list("AABBAABB"):
    sys.exit(str(got))
''')
