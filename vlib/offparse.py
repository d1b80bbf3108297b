"""An OFF file reader that shares nothing with mass, and random models."""
import json
import struct

import numpy as np


def parse_off(path):
    raw = open(path, "rb").read()
    k = raw.index(b"\n}\n") + 3
    hd = json.loads(raw[:k].decode("utf-8"))
    nb = hd["NumberOfBases"]
    pos = k
    P = B = None
    if "RowMajorFloat64ValuesBase64" not in hd["ModelInfo"]["Projectors"]:
        r, c = hd["ModelInfo"]["Projectors"]["Rows"], hd["ModelInfo"]["Projectors"]["Cols"]
        P = np.frombuffer(raw[pos:pos + 8 * r * c], "<f8").reshape(r, c)
        pos += 8 * r * c
        r, c = hd["ModelInfo"]["Basis"]["Rows"], hd["ModelInfo"]["Basis"]["Cols"]
        B = np.frombuffer(raw[pos:pos + 8 * r * c], "<f8").reshape(r, c)
        pos += 8 * r * c
    fmt = "<iiqqff" + ("f" if hd["FileFormatVersion"] == "0.3.0" else "") + f"{nb}f"
    size = struct.calcsize(fmt)
    n = (len(raw) - pos) // size
    recs = [struct.unpack(fmt, raw[pos + i * size:pos + (i + 1) * size]) for i in range(n)]
    return hd, P, B, recs, len(raw) - pos - n * size


def random_model(rng, nb, ns):
    kind = int(rng.integers(3))
    P = rng.standard_normal((nb, ns)) / np.sqrt(ns)
    P[0] = 1.0 / ns
    if kind == 0:
        B = np.linalg.pinv(P)
    else:
        B = rng.standard_normal((ns, nb))
        B[:, 0] = 1
    return P, B
