"""RSR update gate: replay histories of RsrGate through the public API."""
import io
import os
import pathlib
import shutil
import tempfile

import h5py
import numpy as np

from common import SCRATCH, attempt, errclasses, run, run_script, write_config, write_rsr
from fakenet import FakeNet, make_tar

# a platform with one instrument, one with several, one the package does not know
PLATS = [("EOS-Aqua", "modis"), ("Sentinel-3A", "olci"), ("My-Sat 1", "imager")]


def rsr_bytes():
    p = SCRATCH / "tmpl.h5"
    x = np.linspace(0.6, 0.7, 11)
    write_rsr(p, {"1": {"det-1": {"wavelength": x, "response": np.sin(np.pi * (x - .6) / .1),
                                  "central_wavelength": 0.65}}}, "EOS-Aqua", "modis")
    b = p.read_bytes()
    p.unlink()
    return b


def main(rec):
    from pyspectral import rsr_reader, utils
    V = utils.RSR_DATA_VERSION
    MARK = utils.RSR_DATA_VERSION_FILENAME
    raw = {"cur": V, "curnl": V + "\n", "curpad": "  " + V + " \t\n", "curlines": V + "\nv0.1\nx", "curcrlf": V + "\r\n",
           "empty": "", "blankthencur": "\n" + V + "\n", "old": "v1.0.0\n", "secondcur": "v1.0.0\n" + V + "\n",
           "newer": "v99.0.0\n", "longer": V + "1\n", "inner": "x " + V + "\n", "comment": V + " # current\n"}
    h5 = rsr_bytes()
    files = {**{f"rsr_{i}_{p}.h5": h5 for p, i in PLATS}, "rsr_other_Sat.h5": h5[:1000], "sub/notes.txt": b"nested"}
    archives = {v: make_tar([(MARK, raw[v].encode())] + list(files.items()) if i else
                            list(files.items()) + [(MARK, raw[v].encode())])
                for i, v in enumerate(("curnl", "old"))}
    explicit = SCRATCH / "explicit"
    explicit.mkdir()
    (explicit / "my_rsr.h5").write_bytes(h5)

    for case in rec.cases():
        rec.new_history()
        PLATFORM, INSTR = rec.rng.choice(PLATS)
        FNAME = f"rsr_{INSTR}_{PLATFORM}.h5"
        root = pathlib.Path(tempfile.mkdtemp(dir=SCRATCH))
        home = root / "home"
        home.mkdir()
        os.environ["XDG_DATA_HOME"] = str(home / "share")
        os.environ["HOME"] = str(home)
        cfg = root / "cfg.yaml"
        state = {"flag": None, "served": "curnl"}
        dirs = {"other": root / "other", "new": root / "made" / "later", "rsr": None}
        (root / "other").mkdir()
        rsr_user = root / "rsr"
        builtin_dir = home / "share" / "pyspectral"
        rsr_user.mkdir()

        def set_flag(f):
            old = dirs["rsr"]
            dirs["rsr"] = builtin_dir if f == "builtin" else rsr_user
            if f == "builtin":
                os.environ.pop("PSP_CONFIG_FILE", None)
            else:
                opt = {"rsr_dir": str(rsr_user), "rayleigh_dir": str(root / "rayl")}
                if f != "absent":
                    opt["download_from_internet"] = f == "on"
                write_config(cfg, **opt)
                os.environ["PSP_CONFIG_FILE"] = str(cfg)
            if old is not None and old != dirs["rsr"]:  # same abstract directory, other place
                if dirs["rsr"].exists():
                    shutil.rmtree(dirs["rsr"])
                dirs["rsr"].parent.mkdir(parents=True, exist_ok=True)
                shutil.move(str(old), str(dirs["rsr"]))
            dirs["rsr"].mkdir(parents=True, exist_ok=True)

        def handler(url):
            if state["served"] == "redir" and "zenodo" in url:
                return {"status": 302, "headers": {"location": "https://files.example.org/pyspectral_rsr_data.tgz"}}
            return {"body": archives["old" if state["served"] == "old" else "curnl"]}

        def look(d):
            p = dirs[d]
            if not p.is_dir():
                return {"ex": p.exists(), "m": "absent", "has": False}
            mp = p / MARK
            m = "absent"
            if mp.exists():
                with open(mp, newline="") as f:
                    txt = f.read()
                m = next((k for k, v in raw.items() if v == txt), "?")
            return {"ex": True, "m": m, "has": (p / FNAME).is_file()}

        def extra_files():
            known = set(files) | {MARK, "sub"}
            n = 0
            for d in dirs.values():
                if d.is_dir():
                    for p in d.rglob("*"):
                        rel = str(p.relative_to(d))
                        if rel not in known:
                            n += 1
            return n

        def content_ok(fetched, where):
            if not fetched:
                return True
            return all((dirs[where] / k).is_file() and (dirs[where] / k).read_bytes() == v for k, v in files.items())

        s = case["start"]
        set_flag(s["f"])
        if s["m"] != "absent":
            (dirs["rsr"] / MARK).write_text(raw[s["m"]], newline="")
        if s["h"]:
            (dirs["rsr"] / FNAME).write_bytes(h5)
        rec.emit("c01", act="start", m=s["m"], f=s["f"], hs=s["h"])
        for a in case["acts"]:
            act = a["act"]
            if act == "marker":
                p = dirs["rsr"] / MARK
                if a["cls"] == "absent":
                    p.unlink(missing_ok=True)
                else:
                    p.write_text(raw[a["cls"]], newline="")
                rec.emit("c01", **a)
                continue
            if act == "rmfile":
                (dirs["rsr"] / FNAME).unlink(missing_ok=True)
                rec.emit("c01", **a)
                continue
            if act == "flag":
                set_flag(a["val"])
                rec.emit("c01", **a)
                continue
            if act == "serve":
                state["served"] = a["val"]
                rec.emit("c01", **a)
                continue
            served = []

            def counting(url):
                r = handler(url)
                if r.get("status", 200) == 200:
                    served.append(url)
                return r
            kw = {}
            if "dest" in a:
                d = a["dest"]
                if d != "none":
                    p = dirs["rsr" if d == "same" else d]
                    kw["dest_dir"] = str(p) if rec.rng.random() < 0.5 else p
                if a["dry"] or rec.rng.random() < 0.5:
                    kw["dry_run"] = a["dry"]
            version, upt = "", False
            target = rec.rng.choice([explicit / "my_rsr.h5", explicit / "my_rsr.h5", explicit / FNAME, dirs["rsr"] / FNAME])
            target = target if act == "openfile" else explicit / "my_rsr.h5"
            missing = not target.exists()
            with FakeNet(counting) as net:
                if act == "check" and rec.rng.random() < 0.2:
                    argv = (["-o", str(kw["dest_dir"])] if "dest_dir" in kw else []) + (["-d"] if a["dry"] else [])
                    ok, ret, err, exc = attempt(run_script, "download_rsr.py", argv)
                elif act == "check":
                    ok, ret, err, exc = attempt(rsr_reader.check_and_download, **kw)
                elif act == "download":
                    ok, ret, err, exc = attempt(utils.download_rsr, **kw)
                elif act == "construct":
                    ok, ret, err, exc = attempt(rsr_reader.RelativeSpectralResponse, PLATFORM, INSTR)
                elif act == "openfile":
                    ok, ret, err, exc = attempt(rsr_reader.RelativeSpectralResponse,
                                                filename=rec.rng.choice([str, pathlib.Path])(target))
                    if ok:
                        version, upt = ret.rsr_data_version, bool(ret.rsr_data_version_uptodate)
                        version = version.replace(V, "V")
                else:
                    def upd():
                        o = rsr_reader.RelativeSpectralResponse(filename=explicit / "my_rsr.h5")
                        return o.download_rsr_updates(**kw)
                    ok, ret, err, exc = attempt(upd)
            where = {"none": "rsr", "same": "rsr"}.get(a.get("dest", "none"), a.get("dest"))
            rec.emit("c01", **a, missing=missing, fetched=len(served), requests=len(net.log),
                     urls_ok=all(u.endswith("/pyspectral_rsr_data.tgz") for u in net.log), ok=ok,
                     ret=str(ret) if act == "update" else "", errs=errclasses(exc), err=str(exc)[:200] if exc else "",
                     dirs={d: look(d) for d in dirs}, extra=extra_files(),
                     content_ok=content_ok(served and ok, where), version=version, uptodate=upt)
        os.environ.pop("PSP_CONFIG_FILE", None)
        shutil.rmtree(root)


run(main)
