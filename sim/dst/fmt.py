"""Readers for what mps writes, and writers for what it reads. Independent of the code under test."""
import re
import struct
import numpy as np


class Bad(Exception):
    pass


FLUID, WALL, DUMMY = None, None, None


def parse_prof(b):
    t = b.decode("ascii")
    lines = t.split("\n")
    if not t.endswith("\n"):
        raise Bad("prof: no newline at the end")
    time = float(lines[0])
    n = int(lines[1])
    rows = lines[2:-1]
    if len(rows) != n:
        raise Bad("prof: declares %d particles, has %d" % (n, len(rows)))
    typ = np.zeros(n, int)
    pos = np.zeros((n, 3))
    vel = np.zeros((n, 3))
    for i, r in enumerate(rows):
        f = r.split()
        if len(f) != 7:
            raise Bad("prof: row %d has %d fields" % (i, len(f)))
        typ[i] = int(f[0])
        pos[i] = [float(x) for x in f[1:4]]
        vel[i] = [float(x) for x in f[4:7]]
    return {"time": time, "n": n, "type": typ, "pos": pos, "vel": vel}


def parse_csv(b, fluid=True):
    t = b.decode("ascii")
    lines = t.split("\n")
    if not t.endswith("\n"):
        raise Bad("csv: no newline at the end")
    time = float(lines[0])
    n = int(lines[1])
    cols = [c.strip() for c in lines[2].split(",")]
    rows = lines[3:-1]
    if len(rows) != n:
        raise Bad("csv: declares %d particles, has %d" % (n, len(rows)))
    need = ["type", "fluidType", "x", "y", "z", "vx", "vy", "vz"]
    if not fluid and "fluidType" not in cols:
        need[1] = "type"
    for c in need:
        if c not in cols:
            raise Bad("csv: no column " + c)
    ix = [cols.index(c) for c in need]
    typ = np.zeros(n, int)
    ft = np.zeros(n, int)
    pos = np.zeros((n, 3))
    vel = np.zeros((n, 3))
    for i, r in enumerate(rows):
        f = r.split(",")
        if len(f) != len(cols):
            raise Bad("csv: row %d has %d fields" % (i, len(f)))
        typ[i] = int(f[ix[0]])
        ft[i] = int(f[ix[1]])
        pos[i] = [float(f[k]) for k in ix[2:5]]
        vel[i] = [float(f[k]) for k in ix[5:8]]
    return {"time": time, "n": n, "type": typ, "fluid": ft, "pos": pos, "vel": vel}


DT = {"Float64": ("<f8", 8), "Int32": ("<i4", 4), "Int64": ("<i8", 8), "UInt8": ("u1", 1), "Float32": ("<f4", 4), "UInt64": ("<u8", 8), "UInt32": ("<u4", 4), "Int8": ("i1", 1)}
NAMES = {"Position": 3, "Particle Type": 1, "Velocity": 3, "Pressure": 1, "Number Density": 1, "Number Density Ratio": 1,
         "Boundary Condition": 1, "Fluid Type": 1, "connectivity": 1, "offsets": 1, "types": 1, "Time": 1}
ATTR = re.compile(r"""([A-Za-z_]+)\s*=\s*(?:"([^"]*)"|'([^']*)')""")


def _attrs(s):
    return {m.group(1): (m.group(2) if m.group(2) is not None else m.group(3)) for m in ATTR.finditer(s)}


def parse_vtu(b):
    """Strict structural parse of the vtu file; raises Bad on anything VTK could not read."""
    k = b.find(b"<AppendedData")
    raw = None
    head = b
    if k >= 0:
        u = b.find(b"_", b.find(b">", k))
        if u < 0:
            raise Bad("vtu: appended data without underscore")
        raw = u + 1
        end = b.rfind(b"</AppendedData>")
        if end < raw:
            raise Bad("vtu: appended data not closed")
        head = b[:k]
        tail = b[end + len(b"</AppendedData>"):]
        if a_enc(b[k:u]) != "raw":
            raise Bad("vtu: encoding not raw")
    try:
        text = head.decode("ascii")
    except UnicodeDecodeError:
        raise Bad("vtu: not ascii")
    full = text if raw is None else text + "<AppendedData></AppendedData>" + tail.decode("ascii", "replace")
    # tag structure
    stack = []
    pos = 0
    toks = []
    for m in re.finditer(r"<([^<>]*)>", full):
        t = m.group(1)
        between = full[pos:m.start()]
        pos = m.end()
        if t.startswith("?"):
            continue
        if t.startswith("/"):
            if not stack or stack[-1][0] != t[1:].strip():
                raise Bad("vtu: tag </%s> does not match" % t[1:])
            name, at, parent = stack.pop()
            toks.append((name, at, parent, between))
        else:
            selfc = t.endswith("/")
            if selfc:
                t = t[:-1]
            name = t.split()[0]
            at = _attrs(t[len(name):])
            parent = stack[-1][0] if stack else None
            if between.strip():
                raise Bad("vtu: stray text %r" % between.strip()[:30])
            if selfc:
                toks.append((name, at, parent, ""))
            else:
                stack.append((name, at, parent))
    if stack:
        raise Bad("vtu: tag <%s> is not closed" % stack[-1][0])
    if full[pos:].strip():
        raise Bad("vtu: text after the last tag")
    vf = [a for n, a, p, _ in toks if n == "VTKFile"]
    if len(vf) != 1:
        raise Bad("vtu: no VTKFile element")
    if vf[0].get("type") != "UnstructuredGrid" or vf[0].get("byte_order") != "LittleEndian":
        raise Bad("vtu: wrong type or byte order")
    if raw is not None and vf[0].get("header_type") != "UInt64":
        raise Bad("vtu: header_type")
    pc = [a for n, a, p, _ in toks if n == "Piece"]
    if len(pc) != 1:
        raise Bad("vtu: no Piece")
    n = int(pc[0]["NumberOfPoints"])
    if int(pc[0]["NumberOfCells"]) != n:
        raise Bad("vtu: cells != points")
    where = {"Position": "Points", "connectivity": "Cells", "offsets": "Cells", "types": "Cells", "Time": "FieldData"}
    out = {"n": n, "binary": raw is not None}
    spans = []
    for name, at, parent, body in toks:
        if name != "DataArray":
            if body.strip():
                raise Bad("vtu: stray text in " + name)
            continue
        nm = at.get("Name")
        if nm in out:
            raise Bad("vtu: array %s twice" % nm)
        if nm in NAMES and where.get(nm, "PointData") != parent:
            raise Bad("vtu: array %s in %s" % (nm, parent))
        if at.get("type") not in DT:
            raise Bad("vtu: type of %s" % nm)
        dt, size = DT[at["type"]]
        nc = int(at.get("NumberOfComponents", "1"))
        cnt = int(at["NumberOfTuples"]) if "NumberOfTuples" in at else n
        fm = at.get("format")
        if fm == "appended":
            if raw is None:
                raise Bad("vtu: appended array without appended data")
            o = raw + int(at["offset"])
            if o + 8 > end:
                raise Bad("vtu: offset of %s outside the data" % nm)
            ln = struct.unpack("<Q", b[o:o + 8])[0]
            if ln != cnt * nc * size:
                raise Bad("vtu: length of %s is %d, expected %d" % (nm, ln, cnt * nc * size))
            if o + 8 + ln > end:
                raise Bad("vtu: data of %s outside the block" % nm)
            spans.append((o, o + 8 + ln, nm))
            v = np.frombuffer(b[o + 8:o + 8 + ln], dt)
        elif fm == "ascii":
            w = body.split()
            if len(w) != cnt * nc:
                raise Bad("vtu: %s has %d values, expected %d" % (nm, len(w), cnt * nc))
            try:
                v = np.array([float(x) for x in w]) if dt[1] == "f" else np.array([int(x) for x in w])
            except ValueError:
                raise Bad("vtu: bad number in " + nm)
            v = v.astype(dt)
        else:
            raise Bad("vtu: format of %s" % nm)
        if nm in NAMES and nc != NAMES[nm]:
            raise Bad("vtu: components of %s" % nm)
        out[nm] = v.reshape(cnt, nc) if nc > 1 else v
    for nm in NAMES:
        if nm not in out:
            raise Bad("vtu: no array " + nm)
    spans.sort()
    for a, c in zip(spans, spans[1:]):
        if c[0] < a[1]:
            raise Bad("vtu: %s and %s overlap" % (a[2], c[2]))
    if not np.array_equal(out["connectivity"], np.arange(n)):
        raise Bad("vtu: connectivity is not the identity")
    if not np.array_equal(out["offsets"], np.arange(1, n + 1)):
        raise Bad("vtu: offsets are not 1..n")
    if not np.all(out["types"] == 1):
        raise Bad("vtu: cells are not vertices")
    if len(out["Time"]) != 1:
        raise Bad("vtu: time")
    return {"n": n, "binary": raw is not None, "time": float(out["Time"][0]), "type": out["Particle Type"].astype(int), "pos": out["Position"].astype(float),
            "vel": out["Velocity"].astype(float), "P": out["Pressure"].astype(float), "nd": out["Number Density"].astype(float),
            "ndr": out["Number Density Ratio"].astype(float), "bc": out["Boundary Condition"].astype(int), "fluid": out["Fluid Type"].astype(int)}


def a_enc(head):
    return _attrs(head.decode("ascii", "replace")).get("encoding")


def num(x):
    return repr(float(x))


def write_prof(time, typ, pos, vel):
    o = ["%s" % num(time), "%d" % len(typ)]
    for i in range(len(typ)):
        o.append("%d %s" % (typ[i], " ".join(num(v) for v in list(pos[i]) + list(vel[i]))))
    return ("\n".join(o) + "\n").encode()


def write_csv(time, typ, pos, vel, fluid=None, density=None, cols=None):
    cols = cols or (["type"] + (["fluidType"] if fluid is not None else []) + ["x", "y", "z", "vx", "vy", "vz"] +
                    (["density"] if density is not None else []))
    o = [num(time), "%d" % len(typ), ",".join(cols)]
    for i in range(len(typ)):
        d = {"type": "%d" % typ[i], "x": num(pos[i][0]), "y": num(pos[i][1]), "z": num(pos[i][2]),
             "vx": num(vel[i][0]), "vy": num(vel[i][1]), "vz": num(vel[i][2])}
        if fluid is not None:
            d["fluidType"] = "%d" % fluid[i]
        if density is not None:
            d["density"] = num(density[i])
        o.append(",".join(d.get(c, "0") for c in cols))
    return ("\n".join(o) + "\n").encode()


def write_vtu(time, typ, pos, vel, fluid=None, density=None, extra=True, quote='"', omit=()):
    n = len(typ)
    o = ["<?xml version='1.0' encoding='UTF-8'?>",
         '<VTKFile type="UnstructuredGrid" version="1.0" header_type="UInt64" byte_order="LittleEndian">',
         "<UnstructuredGrid>", '<Piece NumberOfPoints="%d" NumberOfCells="%d">' % (n, n), "<Points>"]

    def arr(ty, name, nc, rows):
        o.append('<DataArray type="%s" Name=%s%s%s NumberOfComponents="%d" format="ascii">' % (ty, quote, name, quote, nc))
        o.extend(rows)
        o.append("</DataArray>")

    arr("Float64", "Position", 3, [" ".join(num(v) for v in p) for p in pos])
    o.append("</Points>")
    o.append("<PointData>")
    if "type" not in omit:
        arr("Int32", "Particle Type", 1, ["%d" % t for t in typ])
    if "vel" not in omit:
        arr("Float64", "Velocity", 3, [" ".join(num(v) for v in p) for p in vel])
    if extra:
        arr("Float64", "Pressure", 1, ["0"] * n)
        arr("Float64", "Number Density", 1, ["13.5"] * n)
        arr("Float64", "Number Density Ratio", 1, ["0.9"] * n)
        arr("Int32", "Boundary Condition", 1, ["0"] * n)
    if fluid is not None:
        arr("Int32", "Fluid Type", 1, ["%d" % t for t in fluid])
    if density is not None:
        arr("Float64", "Density", 1, [num(d) for d in density])
    o.append("</PointData>")
    o.append("<Cells>")
    arr("Int64", "connectivity", 1, ["%d" % i for i in range(n)])
    arr("Int64", "offsets", 1, ["%d" % (i + 1) for i in range(n)])
    arr("UInt8", "types", 1, ["1"] * n)
    o.append("</Cells>")
    o.append("</Piece>")
    o += ["<FieldData>", '<DataArray type="Float64" Name="Time" NumberOfTuples="1" format="ascii">', num(time), "</DataArray>", "</FieldData>",
          "</UnstructuredGrid>", "</VTKFile>"]
    return ("\n".join(o) + "\n").encode()


SNAP = re.compile(r"^(prof|vtu|csv)/output_(\d{4,})\.(prof|vtu|csv)$")


def snapshots(out):
    """out: relpath -> bytes of an output directory. Returns {number: {fmt: bytes}}."""
    s = {}
    for k, v in out.items():
        m = SNAP.match(k)
        if m and m.group(1) == m.group(3):
            s.setdefault(int(m.group(2)), {})[m.group(1)] = v
    return s
