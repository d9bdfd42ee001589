"""The readers of raw response files, and the files converted with them."""
import logging
import os
import runpy
import shutil
import sys

import numpy as np

import rawfiles as rf
from common import D, DL, REPO, SCRATCH, attempt, run, write_config

WRITERS = {"abi": rf.columns(["head", "wavelength wavenumber response"], cols=lambda x, y: (x, 10000. / x, y)),
           "agri": rf.columns(["wavelength\tresponse"], "\t"), "ghi": rf.columns(["wavelength\tresponse"], "\t"),
           "ami": rf.columns(["a", "b", "c", "d"]), "avhrr": rf.columns(["Wavelegth (um)  Normalized RSF"]), "cocts": rf.cocts,
           "goci2": rf.goci2, "mersi1": rf.columns([]), "mersi2": rf.columns([]), "mersi3": rf.columns([]),
           "mersirm": rf.columns(["wavelength response"]), "msugs": rf.columns(["a", "b", "c", "d"]), "msugsa": rf.msugsa,
           "slstrtxt": rf.columns(["a", "b", "c", "d"]), "slstr": rf.slstr, "virr": rf.columns([]), "modis": rf.modis, "viirs": rf.viirs,
           "fci": rf.fci, "olci": rf.olci, "metimage": rf.metimage, "epic": rf.epic, "msi": rf.msi, "oli": rf.oli, "aatsr": rf.aatsr,
           "ahi": rf.ahi, "mersi1b": rf.mersi1b}
# raw formats in which the bands share one column of abscissae
SHARED = {"cocts": lambda b: 0, "msi": lambda b: 0, "msugsa": lambda b: b in ("ch1", "ch2", "ch3"),
          "oli": lambda b: "tirs" if b in ("B10", "B11") else b, "mersi1b": lambda b: b in ("ch6", "ch7")}
# raw formats with one file for all the platforms
TOGETHER = {"seviri": rf.seviri, "avhrr1": rf.avhrr1}
SAME_LENGTH = {"fci", "olci"} | set(SHARED)


def main(rec):
    rf.stand_ins()
    from pyspectral.rsr_reader import RelativeSpectralResponse
    from pyspectral.utils import convert2hdf5
    rng = rec.rng
    scripts = os.path.join(REPO, "rsr_convert_scripts")

    def axis(n, unit):
        c = rng.uniform(.4, 13.)
        w = sorted(rng.sample(range(1, 4000), n))
        x = [round(c + k * 1e-4, 4) for k in w]
        if unit == "A":
            return [round(v * 10000) for v in x]
        if unit == "cm-1":
            return sorted(round(10000 / v, 3) for v in x)
        return [round(v * 1000, 2) if unit == "nm" else v * 1e-6 if unit == "m" else v for v in x]

    def values(n, case):
        top = {"one": 1., "percent": 100., "low": .6}[case["peak"]]
        y = [round(top * rng.choice([.05, .25, .5, 1., .1 + .9 * rng.random()]), 5) for _ in range(n)]
        if case["low"] == "some":
            for _ in range(max(1, n // 4)):
                y[rng.randrange(n)] = rng.choice([0., .0004 * top])
        y[rng.randrange(n)] = top
        y[n // 2] = max(y[n // 2], round(.3 * top, 5))
        y[n // 2 - 1] = max(y[n // 2 - 1], round(.4 * top, 5))
        return y

    def raws(case):
        r = case["reader"]
        raw = {}
        shared = {}
        for b, unit in zip(r["bands"], case["units"]):
            n = case["n"] if r["r"] in SAME_LENGTH else case["n"] + rng.randrange(3)
            raw[b] = {}
            first = None
            for k in range(2 if r["r"] == "msugsa" else case["dets"]):
                x = axis(n, unit)
                if r["r"] in SHARED:
                    x = shared.setdefault(SHARED[r["r"]](b), x)
                elif k and (case["same"] == "all" or (case["same"] == "ends" and k == 2)):
                    x = first
                elif k == 0:
                    first = x
                y = values(len(x), case)
                if r["r"] == "modis":
                    # any order, samples without data
                    pts = list(zip(x, y))
                    rng.shuffle(pts)
                    if case["same"] == "none":
                        pts.insert(rng.randrange(len(pts)), (round(x[-1] + 1., 2), -99.))
                    raw[b][f"det-{k + 1}"] = pts
                else:
                    raw[b][f"det-{k + 1}"] = list(zip(x, y))
        return raw

    def load(script, name):
        ns = runpy.run_path(os.path.join(scripts, script), run_name=name)
        return ns

    for case in rec.cases():
        rec.new_history()
        r = case["reader"]
        base = SCRATCH / f"w{rec.h}"
        (base / "raw").mkdir(parents=True)
        (base / "rsr").mkdir()
        conf, data = {}, {}
        # the script converts all of its platforms: lay down raw files for each
        plats = {"oli": ["Landsat-8", "Landsat-9"], "abi": ["GOES-16", "GOES-17", "GOES-18", "GOES-19"], "fci": ["Meteosat-12", "MTG-I1"], "modis": ["EOS-Terra", "EOS-Aqua"],
                 "slstrtxt": ["Sentinel-3A", "Sentinel-3B", "Sentinel-3C", "Sentinel-3D"], "ahi": ["Himawari-8", "Himawari-9"],
                 "msi": ["Sentinel-2A", "Sentinel-2B", "Sentinel-2C"], "avhrr1": ["TIROS-N", "NOAA-6", "NOAA-8", "NOAA-10"],
                 "seviri": ["Meteosat-8", "Meteosat-9", "Meteosat-10", "Meteosat-11"]}.get(r["r"], [r["p"]])
        for p in plats:
            (base / "raw" / p).mkdir()
            data[p] = raws(case)
            if r["r"] in TOGETHER:
                continue
            conf[f"{p}-{r['inst']}"] = WRITERS[r["r"]](base / "raw" / p, p, data[p])
        if r["r"] in TOGETHER:
            if r["r"] == "seviri":
                # one column of wavelengths for all the satellites
                for p in plats[1:]:
                    for b in data[p]:
                        data[p][b]["det-1"] = [(x, y) for (x, _), y in zip(data[plats[0]][b]["det-1"], values(len(data[plats[0]][b]["det-1"]), case))]
            conf = TOGETHER[r["r"]](base / "raw", data)
        cfg = base / "c.yaml"
        write_config(cfg, rsr_dir=str(base / "rsr"), rayleigh_dir=str(base / "ray"), download_from_internet=False, **conf)
        os.environ["PSP_CONFIG_FILE"] = str(cfg)
        raw = data[r["p"]]
        bands = rng.sample(r["bands"], min(3, len(r["bands"])))

        def emit(b, det, ok, x=(), y=(), **kw):
            pts = raw[b][det]
            rec.emit("c20", act=case["op"], r=r["r"], p=r["p"], b=b, det=det, ok=ok, x=DL(x), y=DL(y),
                     rawx=DL([v[0] for v in pts]), rawy=DL([v[1] for v in pts]), **kw)

        def curve(d):
            return [float(v) for v in np.asarray(d["wavelength"])], [float(v) for v in np.asarray(d["response"])]

        if case["op"] == "wavenumber":
            ok0, o, err, exc = attempt(lambda: load(r["script"], "raw_reader")[r["cls"]]("wavenumber"))
            for b in bands:
                def go():
                    y, cw = o.rsr[b][r["p"]], o.central_wavenumber[b][r["p"]]
                    if isinstance(y, dict):
                        y, cw = y["95"], cw["95"]
                    return [float(v) for v in o.rsr[b]["wavenumber"]], [float(v) for v in y], D(cw)
                ok, v, err, exc = attempt(go) if ok0 else (False, None, err, exc)
                emit(b, "det-1", ok, *(v[:2] if ok else ((), ())), cw=v[2] if ok else "nan", err=repr(exc)[:300])
        elif case["op"] == "read":
            ok0, ns, err, exc = attempt(load, r["script"], "raw_reader")
            for b in bands:
                def go():
                    cls = ns[r["cls"]]
                    cls.__init__.__globals__.setdefault("LOG", logging.getLogger("x"))
                    o = cls() if r["r"] in TOGETHER else cls(r["p"]) if r["r"] == "ahi" else cls(b, r["p"])
                    rsr = o.rsr[r["p"]][b] if r["r"] == "avhrr1" else o.rsr[b] if r["r"] in ("ahi", "seviri") else o.rsr
                    if r["r"] == "seviri":
                        y = rsr[r["p"]]
                        rsr = {"wavelength": rsr["wavelength"], "response": y["95"] if isinstance(y, dict) else y}
                    return {d: curve(rsr[d] if d in rsr else rsr) for d in raw[b]}
                ok, v, err, exc = attempt(go) if ok0 else (False, None, err, exc)
                for det in raw[b]:
                    emit(b, det, ok, *(v[det] if ok else ((), ())), err=repr(exc)[:300])
        else:
            def go():
                if r["main"]:
                    old = sys.argv, list(logging.getLogger().handlers)
                    sys.argv = [r["script"]]
                    try:
                        load(r["script"], "__main__")
                    finally:
                        sys.argv = old[0]
                        logging.getLogger().handlers[:] = old[1]
                        logging.disable(logging.CRITICAL)
                else:
                    ns = load(r["script"], "raw_reader")
                    cls = ns[r["cls"]]
                    cls.__init__.__globals__.setdefault("LOG", logging.getLogger("x"))
                    if r["r"] == "viirs":
                        ns["create_viirs_rsr"](r["p"])
                    else:
                        convert2hdf5(cls, r["p"], list(r["bands"]))
                return RelativeSpectralResponse(r["p"], r["inst"])
            so = sys.stdout
            sys.stdout = open(os.devnull, "w")
            se = sys.stderr
            sys.stderr = sys.stdout
            try:
                ok, o, err, exc = attempt(go)
            finally:
                sys.stdout, sys.stderr = so, se
            for b in bands:
                for det in raw[b]:
                    okb, v, eb, xb = attempt(lambda: (curve(o.rsr[b][det]), D(o.rsr[b][det]["central_wavelength"]))) if ok else (False, None, err, exc)
                    emit(b, det, okb, *(v[0] if okb else ((), ())), cw=v[1] if okb else "nan", err=repr(xb)[:300],
                         platform=str(o.platform_name) if ok else "", bands=[str(z) for z in o.band_names] if ok else [], want=list(r["bands"]),
                         dets=[str(z) for z in o.rsr[b]] if okb else [], wantdets=list(raw[b]))
        rf.BOOKS.clear()
        shutil.rmtree(base)


if __name__ == "__main__":
    run(main)
