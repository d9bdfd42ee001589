"""Raw (agency) spectral response files for every reader in rsr_convert_scripts, from given raw numbers.

Each writer lays down the files of one platform: raw[band] is {detector: [(x, y), ...]} in the order and the unit of the
raw format, and returns the section of the configuration that points to them.  Numbers are written with repr, so that the
files hold exactly the numbers given.
"""
import sys
import types


def _w(path, lines):
    path.write_text("\n".join(lines) + "\n")


def columns(header, sep="   ", cols=lambda x, y: (x, y)):
    """One text file per band."""
    def write(d, platform, raw):
        conf = {"path": str(d)}
        for b, dets in raw.items():
            fn = f"{platform}_{b}.txt"
            _w(d / fn, header + [sep.join(repr(v) for v in cols(x, y)) for x, y in dets["det-1"]])
            conf[b] = fn
        return conf
    return write


def cocts(d, platform, raw):
    conf = {"path": str(d)}
    bands = [f"ch{i}" for i in range(1, 9)]
    rows = len(next(iter(raw.values()))["det-1"])
    lines = []
    for r in range(rows):
        lines.append(" ".join([repr(raw[bands[0]]["det-1"][r][0])] + [repr(raw[b]["det-1"][r][1]) for b in bands]))
    _w(d / "cocts.txt", lines)
    return {"path": str(d), **{b: "cocts.txt" for b in bands}}


def goci2(d, platform, raw):
    names = {"L380": "B1 (380 nm)", "L412": "B2 (412 nm)", "L443": "B3 (443 nm)", "L490": "B4 (490 nm)",
             "L510": "B5 (510 nm)", "L555": "B6 (555 nm)", "L620": "B7 (620 nm)", "L660": "B8 (660 nm)",
             "L680": "B9 (680 nm)", "L709": "B10 (709 nm)", "L745": "B11 (745 nm)", "L865": "B12 (865 nm)"}
    head, cols = [], []
    for i, b in enumerate(names):
        head += [f"wl{i}", names[b]]
        cols.append(raw[b]["det-1"])
    n = max(map(len, cols))
    lines = [",".join(head)]
    for r in range(n):
        lines.append(",".join(f"{c[r][0]!r},{c[r][1]!r}" if r < len(c) else "," for c in cols))
    _w(d / "goci.csv", lines)
    return {"path": str(d / "goci.csv")}


def modis(d, platform, raw):
    for b, dets in raw.items():
        n = int(b)
        if platform == "EOS-Terra":
            fn = f"rsr.{n}.inb.final"
        elif n in (5, 6, 7) or n >= 20:
            fn = f"{n:02d}.tv.1pct.det"
        else:
            fn = f"{n:02d}.amb.1pct.det"
        lines = ["# a header line", "# another"]
        for det, pts in dets.items():
            lines += [f" {n} {det[4:]} {x!r} {y!r}" for x, y in pts]
        _w(d / fn, lines)
    return {"path": str(d)}


def viirs(d, platform, raw):
    for b, dets in raw.items():
        lines = ["% header", "% another one"]
        for det, pts in dets.items():
            for x, y in pts:
                if platform == "Suomi-NPP":
                    lines.append(f"{b} {det[4:]} 1 {x!r} 100.0 0.5 {y!r} 0 0")
                else:
                    lines.append(f"{b} {det[4:]} 1 {x!r} {y!r} 100.0 10.0 0 1")
        _w(d / f"x_{b}_y.txt", lines)
    vis = [b for b in raw if b.startswith("M")]
    return {"rootdir": str(d), "section1": {"bands": vis, "filename": "x_{bandname}_y.txt"},
            "section2": {"bands": [b for b in raw if b not in vis], "filename": "x_{bandname}_y.txt"}}


def _nc(path):
    from netCDF4 import Dataset
    return Dataset(str(path), "w")


def fci(d, platform, raw):
    import numpy as np
    names = list(raw)
    n = len(raw[names[0]]["det-1"])
    with _nc(d / "fci.nc") as f:
        f.createDimension("w", n)
        f.createDimension("c", len(names))
        f.createVariable("wavelength", "f8", ("w", "c"))[:] = np.array([[raw[b]["det-1"][r][0] for b in names] for r in range(n)])
        f.createVariable("srf", "f8", ("w", "c"))[:] = np.array([[raw[b]["det-1"][r][1] for b in names] for r in range(n)])
        v = f.createVariable("channel_id", str, ("c",))
        for i, b in enumerate(names):
            v[i] = b
    return {"path": str(d), "filename": "fci.nc"}


def olci(d, platform, raw):
    import numpy as np
    names = [f"Oa{i:02d}" for i in range(1, 22)]
    n = len(raw[names[0]]["det-1"])
    with _nc(d / "olci.nc") as f:
        f.createDimension("w", n)
        f.createDimension("c", len(names))
        for k, v in ((0, "mean_spectral_response_function_wavelength"), (1, "mean_spectral_response_function")):
            f.createVariable(v, "f8", ("c", "w"))[:] = np.array([[p[k] for p in raw[b]["det-1"]] for b in names])
    return {"path": str(d / "olci.nc")}


def slstr(d, platform, raw):
    conf = {"path": str(d)}
    for b, dets in raw.items():
        with _nc(d / f"{b}.nc") as f:
            f.createDimension("w", len(dets["det-1"]))
            f.createVariable("wavelength", "f8", ("w",))[:] = [p[0] for p in dets["det-1"]]
            f.createVariable("response", "f8", ("w",))[:] = [p[1] for p in dets["det-1"]]
        conf[b] = f"{b}.nc"
    return conf


VII = {"vii-4": 443, "vii-8": 555, "vii-12": 668, "vii-15": 752, "vii-16": 763, "vii-17": 865, "vii-20": 914, "vii-22": 1240,
       "vii-23": 1375, "vii-24": 1630, "vii-25": 2250, "vii-26": 3740, "vii-28": 3959, "vii-30": 4050, "vii-33": 6725,
       "vii-34": 7325, "vii-35": 8540, "vii-37": 10690, "vii-39": 12020, "vii-40": 13345}


def metimage(d, platform, raw):
    import numpy as np
    with _nc(d / "m.nc") as f:
        for g in ("LVWIR", "SMWIR", "VISNIR"):
            f.createGroup(g)
        for b, dets in raw.items():
            w = VII[b]
            g = f["LVWIR" if w > 6000 else "SMWIR" if w > 1000 else "VISNIR"]
            g.createDimension(f"n{w}", len(dets["det-1"]))
            g.createDimension(f"t{w}", 2)
            g.createVariable(f"ISRF_cw_{w}", "f8", (f"n{w}", f"t{w}"))[:] = np.array(dets["det-1"])
    return {"path": str(d / "m.nc")}


def _book(path, sheets):
    from openpyxl import Workbook
    wb = Workbook()
    wb.remove(wb.active)
    for name, rows in sheets.items():
        ws = wb.create_sheet(name)
        for r in rows:
            ws.append(r)
    wb.save(str(path))


EPIC = {"B317": "T(317.5) %", "B325": "T(325) %", "B340": "T(340) %", "B388": "T(388) %", "B443": "T(443) %", "B551": "T(551) %",
        "B680": "T(680) %", "B688": "T(687.75) %", "B764": "T(764) %", "B780": "T(779.5) %"}


def epic(d, platform, raw):
    head, cols = [], []
    for i, b in enumerate(EPIC):
        head += [f"nm{i}", EPIC[b]]
        cols.append(raw[b]["det-1"])
    rows = [["x"], ["x"], ["x"], ["x"], head, [None] * len(head)]
    for r in range(max(map(len, cols))):
        rows.append([v for c in cols for v in (c[r] if r < len(c) else (None, None))])
    _book(d / "e.xlsx", {"Other": [["a"]], "Data": rows})
    return {"path": str(d / "e.xlsx")}


MSI = {"B01": "B1", "B02": "B2", "B03": "B3", "B04": "B4", "B05": "B5", "B06": "B6", "B07": "B7", "B08": "B8", "B8A": "B8A",
       "B09": "B9", "B10": "B10", "B11": "B11", "B12": "B12"}


def msi(d, platform, raw):
    s = "S2" + platform[-1]
    xs = [p[0] for p in raw["B01"]["det-1"]]
    rows = [["SR_WL"] + [f"{s}_SR_AV_{MSI[b]}" for b in MSI]]
    for r, x in enumerate(xs):
        rows.append([x] + [raw[b]["det-1"][r][1] for b in MSI])
    others = {f"Spectral Responses (S2{o})": [["SR_WL"] + [f"S2{o}_SR_AV_{MSI[b]}" for b in MSI]] + [[x] + [.5] * len(MSI) for x in xs]
              for o in "ABC" if o != platform[-1]}
    _book(d / "m.xlsx", {**others, f"Spectral Responses ({s})": rows})
    return {"path": str(d / "m.xlsx")}


OLI = {"B1": "CoastalAerosol", "B2": "Blue", "B3": "Green", "B4": "Red", "B5": "NIR", "B6": "SWIR1", "B7": "SWIR2", "B8": "Pan", "B9": "Cirrus"}


def oli(d, platform, raw):
    _book(d / "o.xlsx", {OLI[b]: [["Wavelength", "BA RSR [watts]", "other"]] + [[x, y, 7.] for x, y in raw[b]["det-1"]] for b in OLI})
    head, l9 = "wavelength [um]", {"B10": "Band 10 Band=Average RSR", "B11": "Band 11 Band-Average RSR"}
    tirs = {b: raw[b]["det-1"] for b in l9}
    if platform == "Landsat-8":
        sheets = {"TIRS BA RSR": [[head, "TIRS1 10.8um band average", "TIRS2 12.0um band average"]]
                  + [[x, y, z] for (x, y), (_, z) in zip(tirs["B10"], tirs["B11"])]}
    else:
        sheets = {f"TIRS Band {b[1:]} BA RSR": [[head, l9[b]]] + [list(v) for v in pts] for b, pts in tirs.items()}
    _book(d / "t.xlsx", sheets)
    return {"path": str(d), "oli": "o.xlsx", "tirs": "t.xlsx"}


def mersi1b(d, platform, raw):
    """Two files, each with a column of wavelengths and one for each of the bands in its name."""
    files = {"FY3B_mersi_srf_B1-4_B8-20.txt": [1, 2, 3, 4, *range(8, 21)], "FY3B_mersi_srf_B6-7.txt": [6, 7]}
    conf = {"path": str(d)}
    for fn, bands in files.items():
        cols = [raw[f"ch{b}"]["det-1"] for b in bands]
        _w(d / fn, ["   ".join([repr(cols[0][r][0])] + [repr(c[r][1]) for c in cols]) for r in range(len(cols[0]))])
        conf.update({f"ch{b}": fn for b in bands})
    return conf


def msugsa(d, platform, raw):
    sheets = {}
    for n in (1, 2):
        for kind, bands in (("vis", ["ch1", "ch2", "ch3"]), ("IR", [f"ch{i}" for i in range(4, 11)])):
            rows = [["title"], ["sub"], ["wl"] + bands]
            pts = raw[bands[0]][f"det-{n}"]
            for r in range(len(pts)):
                rows.append([pts[r][0]] + [raw[b][f"det-{n}"][r][1] for b in bands])
            sheets[f"MSU-{n} {kind}"] = rows
    _book(d / "g.xlsx", sheets)
    return {"path": str(d / "g.xlsx")}


# ---- workbooks in the old Excel format: the reading library is replaced by a stand-in
BOOKS = {}


class _Sheet:
    def __init__(self, name, cols):
        self.name, self.cols = name, cols

    def col_values(self, colx, start_rowx=0, end_rowx=None):
        return list(self.cols[colx][start_rowx:end_rowx])


class _Book:
    def __init__(self, sheets):
        self._sheets = [_Sheet(n, c) for n, c in sheets]

    def sheets(self):
        return self._sheets


def stand_ins():
    x = types.ModuleType("xlrd")
    x.open_workbook = lambda filename: _Book(BOOKS[str(filename)])
    x.Book = _Book
    x.__version__ = "2.0.1"
    sys.modules["xlrd"] = x
    try:
        import pkg_resources  # noqa: F401
    except ImportError:
        p = types.ModuleType("pkg_resources")
        p.resource_filename = lambda package, name: "/nonexistent/" + name
        sys.modules["pkg_resources"] = p


def aatsr(d, platform, raw):
    f = d / "a.xls"
    f.write_text("stand-in")
    BOOKS[str(f)] = [("info", [["x"] * 300])] + [("aatsr_" + b, [["t", "u", "v"] + [f"{x!r} {y!r}" for x, y in raw[b]["det-1"]]]) for b in raw]
    return {"path": str(f)}


def ahi(d, platform, raw):
    f = d / "h.xls"
    f.write_text("stand-in")
    BOOKS[str(f)] = [("Title", [["x"]])] + [
        (f"Band {b[2:]} ", [["h"] * 5 + [x for x, y in raw[b]["det-1"]], ["h"] * 5 + [-1. for _ in raw[b]["det-1"]], ["h"] * 5 + [y for x, y in raw[b]["det-1"]]])
        for b in raw]
    return {"path": str(f)}


def _col(head, values):
    return ["h"] * head + list(values)


def seviri(d, data):
    """One workbook for all the satellites; data[platform][band]."""
    sats = ["Meteosat-8", "Meteosat-9", "Meteosat-10", "Meteosat-11"]
    sheets = [("Info", [["x"]])]
    for b in data[sats[0]]:
        head, where = (37, (1, 3, 5, 6)) if b == "HRV" else (13, (1, 3, 5, 7)) if b.startswith("IR") else (12, (1, 2, 3, 4))
        n = len(data[sats[0]][b]["det-1"])
        cols = [_col(head, [.77] * n) for _ in range(9)]
        cols[0] = _col(head, [p[0] for p in data[sats[0]][b]["det-1"]])
        for s, w in zip(sats, where):
            cols[w] = _col(head, [p[1] for p in data[s][b]["det-1"]])
        sheets.append((b + " ", cols))
    f = d / "s.xls"
    f.write_text("stand-in")
    BOOKS[str(f)] = sheets
    return {"seviri": {"path": str(f), "filename": "s.xls"}}


def avhrr1(d, data):
    sheets = [("Kleespies Data", [["x"]])]
    for i, p in enumerate(["TIROS-N", "NOAA-6", "NOAA-8", "NOAA-10"]):
        for b in data[p]:
            pts = data[p][b]["det-1"]
            unit = "\u00c5" if p == "NOAA-8" else "nm"
            tail = ["a remark", "another"][:i % 3]
            sheets.append((f"A10{i + 1}C00{b[2:]}", [["# " + p, f"Wavelength ({unit})"] + [x for x, y in pts] + tail,
                                                    ["", "Response"] + [y for x, y in pts] + [""] * len(tail)]))
    sheets.append(("Summary", [["x"]]))
    f = d / "n.xls"
    f.write_text("stand-in")
    BOOKS[str(f)] = sheets
    return {"avhrr/1": {"path": str(f), "filename": "n.xls"}}
