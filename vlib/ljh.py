"""Independent LJH writer and parser (does not use mass)."""
import struct

import numpy as np


def header(version="2.2.0", timebase=9.6e-6, npre=20, nsamp=100, rows=None, cols=None, row=None, col=None, client="DASTARD version 0.2.0",
           source=None, subdiv=None, suboff=None, ts_offset=None, rowlabel="Row number (from 0-7 inclusive)",
           collabel="Column number (from 0-0 inclusive)", extra=(), eol="\n", channum=1, timebase_str=None):
    lines = ["#LJH Memorial File Format", f"Save File Format Version: {version}"]
    if client is not None:
        lines.append(f"Software Version: {client}")
    lines += ["Software Driver Version: n/a", "Date: 01 Jan 2024, 10:00:00 GMT", "Acquisition Mode: 0",
              "Digitized Word Size in bytes: 2", "Operator: Unknown"]
    if source is not None:
        lines.append(f"Data source: {source}")
    if rows is not None:
        lines.append(f"Number of rows: {rows}")
    if cols is not None:
        lines.append(f"Number of columns: {cols}")
    if row is not None:
        lines.append(f"{rowlabel}: {row}")
    if col is not None:
        lines.append(f"{collabel}: {col}")
    if subdiv is not None:
        lines.append(f"Subframe divisions: {subdiv}")
    if suboff is not None:
        lines.append(f"Subframe offset: {suboff}")
    lines += ["SYSTEM DESCRIPTION OF THIS FILE:", "USER DESCRIPTION OF THIS FILE:", "#End of description",
              "Number of Digitizers: 1", "Number of Active Channels: 1"]
    if ts_offset is not None:
        lines.append(f"Timestamp offset (s): {ts_offset}")
    lines += list(extra)
    lines += ["Digitizer: 1", "Master: Yes", "Bits: 16", f"Timebase: {timebase_str or repr(float(timebase))}",
              "Number of samples per point: 1", f"Presamples: {npre}", f"Total Samples: {nsamp}",
              f"Channel: {channum}.0", "Description: A (Voltage)", "Range: 0.500000", "Offset: -0.000122", "Coupling: DC",
              "Inverted: No", "#End of Header", ""]
    return eol.join(lines).encode()


def records22(data, sub, usec):
    n, ns = data.shape
    dt = np.dtype([("s", "<i8"), ("t", "<i8"), ("d", "<u2", (ns,))])
    a = np.zeros(n, dtype=dt)
    a["s"] = sub
    a["t"] = usec
    a["d"] = data
    return a.tobytes()


def records21(data, us4, ms, reserved=0):
    n, ns = data.shape
    dt = np.dtype([("u", "u1"), ("x", "u1"), ("m", "<u4"), ("d", "<u2", (ns,))])
    a = np.zeros(n, dtype=dt)
    a["u"] = us4
    a["x"] = reserved
    a["m"] = ms
    a["d"] = data
    return a.tobytes()


def write22(path, data, sub=None, usec=None, tail=b"", **hdr):
    data = np.asarray(data, dtype=np.uint16)
    n, ns = data.shape
    if sub is None:
        sub = np.arange(n, dtype=np.int64) * 1000 + 5000
    if usec is None:
        usec = np.arange(n, dtype=np.int64) * 10000 + 1700000000000000
    hdr.setdefault("nsamp", ns)
    with open(path, "wb") as fp:
        fp.write(header(**hdr))
        fp.write(records22(data, sub, usec))
        fp.write(tail)
    return np.asarray(sub), np.asarray(usec)


def parse(path):
    """Return (header dict str->str, header bytes, list of (subframe_or_raw, time, samples) arrays)."""
    with open(path, "rb") as fp:
        raw = fp.read()
    k = raw.index(b"#End of Header")
    k = raw.index(b"\n", k) + 1
    hd = {}
    for line in raw[:k].split(b"\n"):
        if b":" in line:
            a, b = line.split(b":", 1)
            hd[a.strip().decode()] = b.strip().decode()
    ns = int(hd["Total Samples"])
    v = tuple(int(x) for x in hd["Save File Format Version"].split("."))
    body = raw[k:]
    if v >= (2, 2, 0):
        size = 16 + 2 * ns
        n = len(body) // size
        sub = np.zeros(n, dtype=np.int64)
        t = np.zeros(n, dtype=np.int64)
        d = np.zeros((n, ns), dtype=np.uint16)
        for i in range(n):
            r = body[i * size:(i + 1) * size]
            sub[i], t[i] = struct.unpack("<qq", r[:16])
            d[i] = np.frombuffer(r[16:], dtype="<u2")
    else:
        size = 6 + 2 * ns
        n = len(body) // size
        sub = np.zeros(n, dtype=np.int64)
        t = np.zeros(n, dtype=np.int64)
        d = np.zeros((n, ns), dtype=np.uint16)
        for i in range(n):
            r = body[i * size:(i + 1) * size]
            u, x, m = struct.unpack("<BBI", r[:6])
            sub[i] = u
            t[i] = m
            d[i] = np.frombuffer(r[6:], dtype="<u2")
    return dict(header=hd, hbytes=raw[:k], version=v, nsamp=ns, n=n, sub=sub, t=t, data=d, leftover=len(body) - n * size, raw=raw)


def pulse_data(rng, n, ns, npre, base=1000, amp=(500, 8000), tau_r=None, tau_d=None, noise=3.0, kind=None):
    """Random but realistic microcalorimeter records."""
    t = np.arange(ns) - npre
    tr = tau_r or rng.uniform(1.5, 6)
    td = tau_d or rng.uniform(15, max(20, ns / 4))
    if td <= tr * 1.2:
        td = tr * 3
    shape = np.where(t >= 0, np.exp(-np.clip(t, 0, None) / td) - np.exp(-np.clip(t, 0, None) / tr), 0)
    shape = shape / shape.max()
    a = rng.uniform(amp[0], amp[1], size=n)
    d = base + a[:, None] * shape[None, :] + rng.normal(0, noise, size=(n, ns))
    return np.clip(np.round(d), 0, 65535).astype(np.uint16)
