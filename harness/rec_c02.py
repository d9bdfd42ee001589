"""Rayleigh LUT updates: replay histories of LutGate."""
import os
import pathlib
import re
import shutil
import tempfile

import h5py
import numpy as np

from common import SCRATCH, attempt, errclasses, run, run_script, write_config
from fakenet import FakeNet, make_tar

SUFFIX = {"antarctic_aerosol": "AA", "continental_average_aerosol": "CAA", "continental_clean_aerosol": "CCA",
          "continental_polluted_aerosol": "CPA", "desert_aerosol": "DA", "marine_clean_aerosol": "MCA",
          "marine_polluted_aerosol": "MPA", "marine_tropical_aerosol": "MTA", "rural_aerosol": "RA",
          "urban_aerosol": "UA", "rayleigh_only": "RO"}
ATM = ["subarctic summer", "subarctic winter", "midlatitude summer", "midlatitude winter", "tropical", "us-standard"]


def lut_bytes(value):
    p = SCRATCH / "lut.h5"
    with h5py.File(p, "w") as h:
        h["azimuth_difference"] = np.array([0., 180.])
        h["satellite_zenith_secant"] = np.array([1., 3.])
        h["sun_zenith_secant"] = np.array([1., 25.])
        h["wavelengths"] = np.array([400., 800.])
        h["reflectance"] = np.full((2, 2, 2, 2), value)
    b = p.read_bytes()
    p.unlink()
    return b


def main(rec):
    from pyspectral import rayleigh, utils
    types = sorted(SUFFIX)
    content, code = {}, {}
    n = 0
    for t in types + ["before"]:
        for a in ATM:
            n += 1
            code[n] = f"{t}/{a}"
            content[(t, a)] = lut_bytes(n / 100.0)
    version = {t: utils.ATM_CORRECTION_LUT_VERSION[t]["version"] for t in types}

    def fname(a):
        return "rayleigh_lut_" + a.replace(" ", "_") + ".h5"

    archives = {}
    for t in types:
        members = [(fname(a), content[(t, a)]) for a in ATM]
        mk = ("PYSPECTRAL_ATM_CORR_LUT_" + SUFFIX[t], version[t].encode())
        archives[t] = make_tar(members + [mk] if len(archives) % 2 else [mk] + members)
    digests = {content[k]: k for k in content}

    def raw(t, cls):
        v = version[t]
        return {"cur": v, "curpad": "  " + v + " \n", "curlines": v + "\nv0\n", "old": "v1.0.0\n", "empty": "",
                "longer": v + "0", "newer": "v9.9.9"}[cls]

    for case in rec.cases():
        rec.new_history()
        root = pathlib.Path(tempfile.mkdtemp(dir=SCRATCH))
        rdir = root / "rayl"
        cfg = root / "c.yaml"

        def set_flag(f):
            opt = {"rayleigh_dir": str(rdir), "rsr_dir": str(root / "rsr")}
            if f != "absent":
                opt["download_from_internet"] = f == "on"
            write_config(cfg, **opt)
            os.environ["PSP_CONFIG_FILE"] = str(cfg)

        # what may be there already: the archive of an attempt that broke off, files of the user's, a directory kept elsewhere
        litter = rec.rng.choice([(), (), (), ("pyspectral_rayleigh_correction_luts.tgz",), ("notes.txt",), ("link",)])

        def set_marker(t, cls):
            d = rdir / t
            if cls == "none":
                if d.is_symlink():
                    d.unlink()
                    shutil.rmtree(root / "kept" / t, ignore_errors=True)
                shutil.rmtree(d, ignore_errors=True)
                return
            if not d.exists():
                if litter == ("link",):
                    (root / "kept" / t).mkdir(parents=True, exist_ok=True)
                    d.symlink_to(root / "kept" / t)
                d.mkdir(parents=True, exist_ok=True)
                for x in litter:
                    if x != "link":
                        (d / x).write_bytes(b"litter")
            p = d / ("PYSPECTRAL_ATM_CORR_LUT_" + SUFFIX[t])
            if cls == "absent":
                p.unlink(missing_ok=True)
            else:
                p.write_text(raw(t, cls))

        def look():
            m, tag, complete, extra = {}, {}, True, 0
            for t in types:
                d = rdir / t
                if not d.is_dir():
                    m[t], tag[t] = "none", ""
                    continue
                p = d / ("PYSPECTRAL_ATM_CORR_LUT_" + SUFFIX[t])
                if p.is_file():
                    txt = p.read_text()
                    m[t] = next((c for c in ("cur", "curpad", "curlines", "old", "empty", "longer", "newer")
                                 if raw(t, c) == txt), "?")
                else:
                    m[t] = "absent"
                found = set()
                for q in d.iterdir():
                    if q == p or (q.name in litter and q.read_bytes() == b"litter"):
                        continue
                    key = digests.get(q.read_bytes()) if q.is_file() else None
                    if key is None or q.name != fname(key[1]):
                        extra += 1
                    else:
                        found.add(key)
                owners = {k[0] for k in found}
                tag[t] = "" if not owners else owners.pop() if len(owners) == 1 else "several"
                complete = complete and len(found) in (0, 6)
            if rdir.exists():
                extra += sum(1 for q in rdir.iterdir() if q.name not in SUFFIX)
            return m, tag, complete, extra

        s = case["start"]
        set_flag(s["f"])
        rdir.mkdir()
        for t in types:
            p = s["p"]
            c = {"none": "none", "cur": "cur", "old": "old"}.get(p)
            if c is None and p == "mixed":
                c = "cur" if t in ("rayleigh_only", "urban_aerosol", "marine_clean_aerosol") else "old"
            if c is None:
                c = "old" if t == p else "cur"
            set_marker(t, c)
            if s["full"] and c != "none":
                for at in ATM:
                    (rdir / t / fname(at)).write_bytes(content[("before", at)])
        rec.emit("c02", act="start", p=s["p"], f=s["f"], full=s["full"])
        for a in case["acts"]:
            if a["act"] == "marker":
                set_marker(a["type"], a["cls"])
                rec.emit("c02", **a)
                continue
            if a["act"] == "flag":
                set_flag(a["val"])
                rec.emit("c02", **a)
                continue

            def handler(url):
                mm = re.search(r"pyspectral_atm_correction_luts_(\w+)\.tgz$", url)
                t = {"no_aerosol": "rayleigh_only"}.get(mm.group(1), mm.group(1)) if mm else None
                if t not in archives:
                    return {"status": 404}
                return {"body": archives[t]}
            used = ""
            with FakeNet(handler) as net:
                if a["act"] == "create":
                    kw = {}
                    if a["type"] != "marine_clean_aerosol" or rec.rng.random() < 0.5:
                        kw["aerosol_type"] = a["type"]
                    if a["atm"] != "us-standard" or rec.rng.random() < 0.5:
                        kw["atmosphere"] = a["atm"]
                    ok, ret, err, exc = attempt(rayleigh.Rayleigh, "Suomi-NPP", "viirs", **kw)
                    if ok:
                        z = np.zeros((1, 1))
                        ok2, v, e2, x2 = attempt(ret.get_reflectance, z, z, z, 0.6)
                        used = code.get(round(float(v[0, 0])), "?") if ok2 else "error " + e2
                else:
                    ts = a["types"]
                    kw = {"dry_run": a["dry"]} if a["dry"] or rec.rng.random() < 0.5 else {}
                    fn = rayleigh.check_and_download if a["act"] == "check" else utils.download_luts
                    if ts != ["all"]:
                        kw["aerosol_types"] = rec.rng.choice([list, tuple, set])(ts)
                    elif rec.rng.random() < 0.3:
                        kw["aerosol_types"] = None
                    script = a["act"] == "check" and rec.rng.random() < 0.1
                    if a["act"] == "download" and ts != ["all"] and rec.rng.random() < 0.2:
                        kw.pop("aerosol_types")
                        kw["aerosol_type"] = ts[0] if len(ts) == 1 and rec.rng.random() < 0.7 else rec.rng.choice([list, tuple, set])(ts)
                    if script:
                        argv = (["-a"] + ts if ts != ["all"] else []) + (["-d"] if a["dry"] else [])
                        ok, ret, err, exc = attempt(run_script, "download_atm_correction_luts.py", argv)
                    else:
                        ok, ret, err, exc = attempt(fn, **kw)
            m, tag, complete, extra = look()
            rec.emit("c02", **a, ok=ok, errs=errclasses(exc), err=str(exc)[:200] if exc else "",
                     urls=[u.rsplit("/", 1)[-1] for u in net.log], m=m, tag=tag, complete=complete, extra=extra,
                     used=used)
        os.environ.pop("PSP_CONFIG_FILE", None)
        shutil.rmtree(root)


run(main)
