"""Spectral-response files: reading, converting, constructor arguments."""
import json
import os
import pathlib
import shutil
import tempfile

import h5py
import numpy as np

from common import D, DL, SCRATCH, attempt, errclasses, run, write_config


def curve(rng, dt, mult):
    n = rng.randint(2, 12) if rng.random() < .97 else 300
    x = sorted(rng.uniform(0.4, 14.0) for _ in range(n))
    if rng.random() < 0.15:
        x = x[::-1]
    return np.array([v * mult for v in x], dt), np.array([rng.random() for _ in range(n)], dt)


def enc_text(s, enc):
    if enc == "bytes":
        b = np.bytes_(s.encode("utf-8"))
        return np.array([b]) if len(s) % 2 else b     # written as one text, or as a list of one text
    if enc == "object":
        return np.array([s], dtype=h5py.string_dtype())
    return s


def main(rec):
    from pyspectral.rsr_reader import RelativeSpectralResponse
    from pyspectral.utils import INSTRUMENTS, convert2hdf5, check_and_adjust_instrument_name
    rng = rec.rng

    def project(r):
        out = []
        for b in r.band_names:
            dets = r.rsr[b]
            out.append({"name": b, "detnames": list(dets),
                        "dets": [{"resp": DL(d["response"]), "wl": DL(d["wavelength"]), "cw": D(d["central_wavelength"])}
                                 for d in dets.values()]})
        return out

    for c in rec.cases():
        rec.new_history()
        root = pathlib.Path(tempfile.mkdtemp(dir=SCRATCH))
        d = root / "rsr"
        d.mkdir()
        cfg = root / "c.yaml"
        write_config(cfg, rsr_dir=str(d), rayleigh_dir=str(root / "ray"), download_from_internet=False)
        os.environ["PSP_CONFIG_FILE"] = str(cfg)
        if c["op"] == "read":
            plat = {"name": "EOS-Aqua", "oscar": "meteosat-9", "number": "", "absent": "", "list": "FY-3B",
                    "unknown": rng.choice(["Nowhere-7", "Nowhere 7 ", " Nowhere-7", "nowhere\u00e5-7", "NOWHERE_7"])}[c["plat"]]
            sensor = {"name": "modis", "list": "mersi-1"}.get(c["plat"], "seviri") if c["sensor"] else ""
            asked = (plat, sensor)
            fn = d / "some_file.h5"
            if c["by"] == "name":
                fn = d / f"rsr_{check_and_adjust_instrument_name(plat, sensor)}_{plat}.h5"
            f = {"platform_name": plat, "platform": "", "sat_number": "", "sensor": sensor,
                 "description": f"Some text {rng.randint(0, 99)}" + rng.choice(["", " 0.4\u201314 \u00b5m", " caf\u00e9  ", "\nsecond line"]), "bands": []}
            mults = {"1e-6": 1.0, "1e-9": 1000.0, "1": 1e-6}
            mult = mults[c["scale"]]
            scale = float(c["scale"])
            # the detectors' wavelengths may come in another unit than those of the band
            dscale = rng.choice(sorted(mults)) if c["layout"] in ("override", "partial", "det") else c["scale"]
            dmult, dscale = mults[dscale], float(dscale)
            names = rng.sample(["20", "ch1", "VIS0.6", "M1", "I4", "1", "IR10.8"], c["nbands"])
            with h5py.File(fn, "w") as h:
                if c["enc"] == "bytes":
                    h.attrs["band_names"] = np.array(names, dtype="S10")
                elif c["enc"] == "object":
                    h.attrs["band_names"] = np.array(names, dtype=h5py.string_dtype())
                else:
                    h.attrs["band_names"] = names
                h.attrs["description"] = enc_text(f["description"], c["enc"])
                if c["plat"] == "number":
                    f["platform"], num = rng.choice([("meteosat", 10), ("meteosat", 8), ("eos", 2), ("NOAA", 19), ("Metop", 3), ("GOES-R", 16)])
                    f["sat_number"] = str(num)
                    h.attrs["platform"] = enc_text(f["platform"], c["enc"])
                    h.attrs["sat_number"] = num
                elif c["plat"] != "absent":
                    h.attrs["platform_name"] = enc_text(plat, c["enc"])
                if sensor:
                    h.attrs["sensor"] = enc_text(sensor, c["enc"])

                def level(grp, resp, wl, cw, what, scale=scale):
                    lv = {"resp": [], "wl": [], "scale": "", "cw": ""}
                    if "r" in what:
                        grp.create_dataset("response", data=resp)
                        lv["resp"] = DL(resp)
                    if "w" in what:
                        ds = grp.create_dataset("wavelength", data=wl)
                        ds.attrs["scale"] = scale
                        lv["wl"], lv["scale"] = DL(wl), D(scale)
                    if "c" in what:
                        grp.attrs["central_wavelength"] = cw
                        lv["cw"] = D(cw)
                    return lv
                for nm in names:
                    g = h.create_group(nm)
                    nd = c["ndet"] if c["ndet"] < 4 or rng.random() < .9 else rng.choice([10, 40])
                    b = {"name": nm, "ndet": nd, "own": None, "dets": []}
                    if nd:
                        g.attrs["number_of_detectors"] = np.int32(nd) if rng.random() < .5 else nd
                    own = {"flat": "rwc", "det": "", "mixed": rng.choice(["w", "wc", "c", "rw"]), "override": "rwc",
                           "partial": "rwc", "ndet-only": "rwc"}[c["layout"]]
                    wl, rs = curve(rng, c["dt"], mult)
                    b["own"] = level(g, rs, wl, rng.uniform(.4, 14), own)
                    for i in range(1, nd + 1):
                        w2, r2 = curve(rng, c["dt"], dmult)
                        if c["layout"] == "mixed":
                            what = "".join(x for x in "rwc" if x not in own)
                            if "w" in own:
                                w2, r2 = wl, r2[:1].repeat(len(wl)) * np.arange(1, len(wl) + 1)
                        elif c["layout"] == "partial":
                            what = rng.choice(["", "r", "c", "rw", "rwc", "w"])
                            r2, w2 = rs * np.array(.5, c["dt"]), wl * np.array(1.25 * dmult / mult, c["dt"])
                        elif c["layout"] == "ndet-only":
                            what = None
                        else:
                            what = "rwc"
                        if what is None:
                            continue
                        dg = g.create_group(f"det-{i}")
                        b["dets"].append(level(dg, r2, w2, rng.uniform(.4, 14), what, dscale))
                    f["bands"].append(b)
            if c["by"] == "name":
                ok, r, err, exc = attempt(RelativeSpectralResponse, *asked)
            else:
                ok, r, err, exc = attempt(RelativeSpectralResponse,
                                          filename=str(fn) if c["by"] == "file" else pathlib.Path(fn))
            ev = dict(op="read", by=c["by"], dt=c["dt"], layout=c["layout"], enc=c["enc"], file=f, ok=ok, err=repr(exc)[:200],
                      asked_platform=plat)
            if ok:
                ok2, _, _, exc2 = attempt(lambda: r.rsr.get("no such band"))
                ok3, _, _, exc3 = attempt(lambda: ["nope" in r.rsr, r.rsr.get("5")])
                ev.update(got=project(r), platform=str(r.platform_name), instrument=str(r.instrument), alias_ok=ok2 and ok3,
                          description=r.description, band_names=r.band_names, unit=r.unit, si_scale=D(r.si_scale))
            rec.emit("c05", **ev)
            if ok:   # what is done with one object, and to the file after reading it, does not reach other objects
                again = {k: ev[k] for k in ("op", "by", "dt", "layout", "enc", "asked_platform")}
                what = rng.choice(["convert", "scribble", "drop", "rewrite", "none"])
                if what == "convert":
                    attempt(r.convert)
                elif what == "scribble":
                    for b in dict.keys(r.rsr):
                        for v in dict.__getitem__(r.rsr, b).values():
                            v["response"][:] = -1
                            v["wavelength"][:] = -1
                            v["central_wavelength"] = -1
                    r.band_names.append("x")
                elif what == "drop":
                    r.rsr.clear()
                elif what == "rewrite":
                    st = os.stat(fn)
                    with h5py.File(fn, "a") as h:
                        f = json.loads(json.dumps(f))
                        f["description"] = "Other text"
                        h.attrs["description"] = "Other text"
                        for b in f["bands"]:
                            for lv, g in [(b["own"], h[b["name"]])] + [(v, h[b["name"]][f"det-{i + 1}"]) for i, v in enumerate(b["dets"])]:
                                if lv["cw"]:
                                    g.attrs["central_wavelength"] = 5.5
                                    lv["cw"] = D(5.5)
                                if lv["resp"]:
                                    g["response"][:] = g["response"][:][::-1]
                                    lv["resp"] = lv["resp"][::-1]
                    os.utime(fn, ns=(st.st_atime_ns, st.st_mtime_ns))
                if c["by"] == "name":
                    ok, r, err, exc = attempt(RelativeSpectralResponse, *asked)
                else:
                    ok, r, err, exc = attempt(RelativeSpectralResponse, filename=str(fn) if c["by"] == "file" else pathlib.Path(fn))
                again.update(file=f, ok=ok, err=repr(exc)[:200], after=what)
                if ok:
                    again.update(got=project(r), platform=str(r.platform_name), instrument=str(r.instrument), alias_ok=True,
                                 description=r.description, band_names=r.band_names, unit=r.unit, si_scale=D(r.si_scale))
                rec.emit("c05", **again)
        elif c["op"] == "conv":
            plat, inst = {"plain": ("EOS-Aqua", "modis"), "slash": ("NOAA-19", "avhrr/3"), "dash": ("FY-3C", "mersi-1"),
                          "upper": ("Test-Sat", "SensorX"), "under": ("Landsat-8", "oli_tirs")}[c["inst"]]
            names = rng.sample(["ch1", "ch2", "5", "B08", "IR10.8"], c["nbands"])
            nd = c["ndet"]
            raws = {}
            for nm in names:
                wl, rs = curve(rng, "f8", 1.0)
                wl = np.sort(wl)
                rs = rs + 0.05
                resps = [rs] + [np.array([rng.random() + .05 for _ in wl]) for _ in range(max(nd, 1) - 1)]
                if c["nan"] and len(wl) > 3:
                    for k in [len(wl), rng.randint(0, len(wl))][:rng.randint(1, 2)] if rng.random() < .5 else [rng.randint(0, len(wl))]:
                        wl = np.insert(wl, k, np.nan)
                        resps = [np.insert(x, k, 0.25) for x in resps]
                raws[nm] = (wl, resps)

            class Raw:
                def __init__(self, band, platform_name):
                    self.instrument, self.output_dir, self.platform_name = inst, str(d), platform_name
                    w, rr = raws[band]
                    mk = (lambda x: np.ma.masked_array(x, mask=np.zeros(x.shape, bool))) if c["masked"] else np.array
                    if nd:
                        self.rsr = {f"det-{i + 1}": {"wavelength": mk(w), "response": mk(x)} for i, x in enumerate(rr)}
                    else:
                        self.rsr = {"wavelength": mk(w), "response": mk(rr[0])}
            kw = {"detectors": [f"det-{i + 1}" for i in range(nd)]} if nd else {}

            def go():
                convert2hdf5(Raw, plat, names, **kw)
                if c["by"] == "name":
                    return RelativeSpectralResponse(plat, inst)
                files = list(d.glob("*.h5"))
                assert len(files) == 1
                return RelativeSpectralResponse(filename=files[0])
            ok, r, err, exc = attempt(go)
            raw = []
            for nm in names:
                w, rr = raws[nm]
                good = ~np.isnan(w)
                raw.append({"name": nm, "wl": DL(w), "resps": [DL(x) for x in rr], "cwl": DL(w[good]),
                            "cresps": [DL(x[good]) for x in rr]})
            ev = dict(op="conv", c=c, raw=raw, ok=ok, err=repr(exc)[:200], asked_platform=plat)
            if ok:
                ev.update(got=project(r), platform=r.platform_name, band_names=list(r.band_names))
            rec.emit("c05", **ev)
        else:
            fn = d / "rsr_modis_EOS-Aqua.h5"
            if not c["missing"]:
                from fixtures import rsr_file_bytes
                fn.write_bytes(rsr_file_bytes())
            kw = {}
            if c["file"]:
                kw["filename"] = fn if c["kind"] == "path" else str(fn)
            if c["platform"]:
                kw["platform_name"] = "EOS-Aqua"
            if c["instrument"]:
                kw["instrument"] = "modis"
            ok, r, err, exc = attempt(lambda: RelativeSpectralResponse(**kw))
            rec.emit("c05", op="args", **{k: v for k, v in c.items() if k != "op"}, ok=ok, errs=errclasses(exc),
                     path_in_message=bool(exc) and str(fn) in str(exc))
        os.environ.pop("PSP_CONFIG_FILE", None)
        shutil.rmtree(root)


run(main)
