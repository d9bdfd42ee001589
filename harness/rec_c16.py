"""Histories of the helpers for other packages' tests."""
import contextlib
import gc
import os
import pathlib
import shutil
import sys
import tempfile
import types

import numpy as np

from common import SCRATCH, attempt, run
from fakenet import FakeNet

# the user's own files in a directory given to a helper
MINE = ("mine.txt", "tb2rad_lut_mine.npz", "sub/rsr_mine_Sat.h5", "fake_tb2rad/tb2rad_lut_mine.npz", "fake_rsr/mine.h5", "fake_rayleigh/mine.h5")


def code():
    """Every function, class and module the package (and its HTTP library) currently uses."""
    import requests
    out = {}
    for name, mod in list(sys.modules.items()):
        if (name == "pyspectral" or name.startswith("pyspectral.")) and not name.startswith("pyspectral.tests") or mod is requests:
            for k, v in list(vars(mod).items()):
                if callable(v) or isinstance(v, types.ModuleType):
                    out[name, k] = v
    return out


def unchanged(before):
    return all(getattr(sys.modules[m], k, None) is v for (m, k), v in before.items())


def tree(p):
    return sorted(os.listdir(p))


def lut(value):
    n = (3, 4, 5, 4)
    return {"azimuth_difference": np.linspace(0., 180., n[2]), "reflectance": np.full(n, value),
            "wavelengths": np.linspace(400, 800, n[0]), "satellite_zenith_secant": np.linspace(1., 3., n[3]),
            "sun_zenith_secant": np.linspace(1., 20., n[1])}


def main(rec):
    import pyspectral.testing as T
    from pyspectral import config, near_infrared_reflectance, rayleigh, rsr_reader, utils
    import pyspectral.solar  # noqa: F401
    import pyspectral.bandnames  # noqa: F401
    rng = rec.rng
    n = 0
    for case in rec.cases():
        rec.new_history()
        n += 1
        root = SCRATCH / f"th{rec.a.shard}_{n}"
        tmp = root / "tmp"
        for sub in ("tmp", "home", "cwd", "given"):
            (root / sub).mkdir(parents=True)
        os.chdir(root / "cwd")
        tempfile.tempdir = str(tmp)
        os.environ.update(TMPDIR=str(tmp), HOME=str(root / "home"))
        os.environ.pop("XDG_DATA_HOME", None)
        outside = 0
        outer = root / "outer.yaml"
        outer.write_text("token: -5\ndownload_from_internet: false\n")
        plain = root / "plain.yaml"
        plain.write_text("token: -6\ndownload_from_internet: false\nrsr_dir: %s\n" % (root / "plainrsr"))
        os.environ.pop("PSP_CONFIG_FILE", None)
        if case["c"] != "unset":
            os.environ["PSP_CONFIG_FILE"] = str(outer if case["c"] == "file" else plain)
            outside = -5 if case["c"] == "file" else -6
        if case["c"] == "empty":        # a setting no configuration can be read from
            os.environ["PSP_CONFIG_FILE"] = ""
        rec.emit("c16", act="start", dl=case["c"] == "unset", broken=case["c"] == "empty")
        stack = []
        pool = []
        shared, shared_files = {}, {}        # a caller may use one dictionary of options again and again
        ids = [rng.randrange(1, 800)]

        def handler(url):
            return {"status": 404, "body": b"gone"}
        with FakeNet(handler) as net:

            def enter(op):
                ids[0] += 1
                i = ids[0]
                kind = op["kind"]
                d = None if op["dir"] == "own" else (root / "given" / f"d{i}" if op["dir"] == "given" else pathlib.Path(f"rel{i}"))
                if d is not None:
                    if rng.random() < .3:       # below directories that do not exist either
                        d = d.parent / f"deep{i}" / "er" / d.name
                    free = [x for x in pool if not any(f["dir"] == x for f in stack)]
                    if free and rng.random() < .35:     # a directory an earlier helper was given
                        d = rng.choice(free)
                    pool.append(d)
                cw = {"20": 3.7 + i / 10000}
                kw = {}
                if kind == "forbid":
                    mk = T.forbid_pyspectral_downloads
                elif kind == "conf":
                    if op["dir"] == "given":
                        f = root / f"conf{i}.yaml"
                        T.create_pyspectral_config_file(f, {"token": i, "download_from_internet": op["dl"]})
                        kw = {"config_path": f}
                    else:
                        kw = {"config_options": {"token": i, "download_from_internet": op["dl"]}}
                    mk = T.override_config
                    d = None
                elif kind == "rsr":
                    mk = T.mock_rsr
                    kw = {"rsr_dir": d, "central_wavelengths": cw, "download_from_internet": op["dl"]}
                    if not op["ver"]:
                        kw["rsr_data_version"] = None
                elif kind == "tb":
                    mk = T.mock_tb_conversion
                    kw = {"tb2rad_dir": d, "central_wavelengths": cw}
                    if op["bad"]:
                        kw["no_such_argument"] = 1
                    elif d is not None and rng.random() < .5:
                        kw["rsr_dir"] = d.parent / (d.name + "r")
                elif kind == "ray":
                    mk = T.mock_rayleigh
                    kw = {"rayleigh_dir": d, "lut_data": lut(i / 1000) if not op["bad"] else {"reflectance": np.zeros(3)},
                          "aerosol_types": ["marine_clean_aerosol"], "atmospheres": ["us-standard"]}
                elif kind == "rsrfiles":
                    mk = T.mock_rsr_files
                    kw = {"central_wavelengths": cw}
                else:
                    mk = T.mock_pyspectral_downloads
                    opts, fopts = (shared, shared_files) if rng.random() < .7 else ({}, {})
                    opts["token"] = i
                    fopts["central_wavelengths"] = cw
                    kw = {"tmp_path": d, "extra_config_options": opts, "rsr_files_kwargs": fopts}
                    if op["bad"]:
                        kw["rsr_files_kwargs"] = {"no_such_argument": 1}
                if d is None:
                    kw = {k: v for k, v in kw.items() if v is not None}
                args = [d] if kind == "rsrfiles" else []
                if rng.random() < .5 and d is not None:
                    d.mkdir(parents=True, exist_ok=True)
                    for own in MINE:
                        (d / own).parent.mkdir(exist_ok=True)
                        (d / own).write_text("keep")
                before = (os.environ.get("PSP_CONFIG_FILE"), code(), tree(tmp))

                def go():
                    cm = mk(*args, **kw)
                    cm.__enter__()
                    return cm
                ok, cm, err, exc = attempt(go)
                exc = repr(exc)[:200]
                gc.collect()
                extra = {}
                if not ok:
                    extra = {"env_back": os.environ.get("PSP_CONFIG_FILE") == before[0], "code_back": unchanged(before[1]), "temp_back": tree(tmp) == before[2]}
                rec.emit("c16", act="enter", kind=kind, id=i, dl=op["dl"], ver=op["ver"], bad=op["bad"], dir=op["dir"], ok=ok, err=exc, **extra)
                if ok:
                    stack.append({"cm": cm, "before": before, "dir": d, "id": i, "kind": kind, "mine": d is not None and (d / "mine.txt").exists()})

            def left(f, passed=True):
                gc.collect()
                d = f["dir"]
                kept = True
                if d is not None and f["kind"] in ("tb", "ray", "all", "rsrfiles"):
                    kept = d.is_dir() and (f["kind"] == "tb" or len(list(d.iterdir())) > 0)
                if f["mine"]:
                    kept = kept and all((d / own).is_file() and (d / own).read_text() == "keep" for own in MINE)
                rec.emit("c16", act="left", id=f["id"], env_back=os.environ.get("PSP_CONFIG_FILE") == f["before"][0],
                         code_back=unchanged(f["before"][1]), temp_back=tree(tmp) == f["before"][2], kept=kept, passed=passed)

            def leave():
                f = stack.pop()
                ok, v, err, exc = attempt(f["cm"].__exit__, None, None, None)
                del f["cm"]
                left(f, ok)

            def probe(what):
                before = len(net.log)
                r = {"id": -1, "tried": False, "inside": False, "download": False, "outside": outside}
                if what == "conf":
                    ok, c, err, exc = attempt(config.get_config)
                    if ok:
                        r["id"] = c.get("token", 0)
                        r["download"] = bool(c.get("download_from_internet"))
                        top = [f for f in stack if f["kind"] in ("rsr", "tb", "ray", "conf", "all")]
                        if top and top[-1]["kind"] in ("rsr", "tb", "ray"):
                            # these install no token of their own: their configuration is known by its directories
                            key = {"rsr": "rsr_dir", "tb": "tb2rad_dir", "ray": "rayleigh_dir"}[top[-1]["kind"]]
                            want = top[-1]["dir"]
                            hit = c.get(key) == str(want) if want is not None else str(c.get(key, "")).startswith(str(tmp) + os.sep)
                            r["id"] = top[-1]["id"] if hit and "token" not in c else -2
                elif what == "rsr":
                    if utils.requests is not None:
                        ok, x, err, exc = attempt(rsr_reader.RelativeSpectralResponse, "EOS-Aqua", "modis")
                    r["tried"] = bool(exc is not None and type(exc) is RuntimeError)
                    if ok:
                        w = round((float(x.rsr["20"]["det-1"]["central_wavelength"]) - 3.7) * 10000)
                        frames = [f for f in stack if f["kind"] in ("rsr", "tb", "ray", "all", "rsrfiles")]
                        r["id"] = w
                        if frames and frames[-1]["kind"] == "ray" and abs(float(x.rsr["20"]["det-1"]["central_wavelength"]) - .46) < 1e-6:
                            r["id"] = frames[-1]["id"]
                elif what == "luts":
                    def go():
                        o = rayleigh.Rayleigh("EOS-Aqua", "modis")
                        v = o.get_reflectance(np.array([20., 30.]), np.array([10., 20.]), np.array([50., 60.]), .46)
                        return np.asarray(v)
                    ok, v, err, exc = attempt(go)
                    if ok:
                        r["id"] = 0 if np.allclose(v, 58.505, rtol=1e-3) else round(float(v[0]) * 10)
                elif what == "tb":
                    conf = attempt(config.get_config)[1] or {}
                    d = pathlib.Path(conf.get("tb2rad_dir", tmp / "none"))
                    frames = [f for f in stack if f["kind"] in ("tb", "all")]
                    top = [f for f in stack if f["kind"] in ("rsr", "tb", "ray", "conf", "all")]
                    if not frames or top[-1] is not frames[-1] or [f for f in stack if f["kind"] in ("rsr", "tb", "ray", "all", "rsrfiles")][-1] is not frames[-1]:
                        return
                    before_files = set(d.iterdir()) if d.is_dir() else set()
                    rest = tree(tmp)

                    def go():
                        c = near_infrared_reflectance.Calculator("EOS-Aqua", "modis", "20")
                        c.reflectance_from_tbs(np.array([60.]), np.array([290.]), np.array([285.]))
                        return c
                    ok, c, err, exc = attempt(go)
                    r["inside"] = bool(tree(tmp) == rest and d.is_dir() and (set(d.iterdir()) - before_files or any(str(p).endswith(".npz") for p in before_files)))
                else:
                    ok, v, err, exc = attempt(utils.download_rsr, root / "dl")
                    shutil.rmtree(root / "dl", ignore_errors=True)
                rec.emit("c16", act="probe", what=what, ok=ok, err=err, net=len(net.log) - before, msg=repr(exc)[:150] if exc else "", **r)

            for op in case["ops"]:
                if op["op"] == "enter":
                    if len(stack) < 5:
                        enter(op)
                elif op["op"] == "probe":
                    probe(op["what"])
                elif op["op"] == "leave":
                    if stack:
                        leave()
                else:
                    k = min(op["depth"], len(stack))
                    cls = {"Exception": type("Boom", (Exception,), {}), "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit,
                           "FileNotFoundError": FileNotFoundError}[op["cls"]]
                    frames = [stack.pop() for _ in range(k)]
                    for f in frames:
                        cm = f.pop("cm")
                        passed = False
                        boom = cls("boom")
                        try:
                            with contextlib.ExitStack() as es:
                                es.push(cm)
                                raise boom
                        except BaseException as e:  # noqa: BLE001
                            passed = e is boom
                            e.__traceback__ = None
                        del cm, boom
                        left(f, passed)
            while stack:
                leave()
            probe("conf")
            probe("rsr")
        os.chdir(SCRATCH)
        os.environ.pop("PSP_CONFIG_FILE", None)
        shutil.rmtree(root)


if __name__ == "__main__":
    run(main)
