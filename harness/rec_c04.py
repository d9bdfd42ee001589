"""Calculators sharing a cache directory: histories, deaths while writing, overlapping creations."""
import json
import os
import pathlib
import shutil
import signal
import sys
import tempfile
import threading

import numpy as np

from common import DL, SCRATCH, attempt, run, write_config, write_rsr
from fakenet import FsFault, in_child, snapshot

KEYS = {1: ("EOS-Aqua", "modis", "20", "det-1", "wavelength"), 2: ("EOS-Aqua", "modis", "20", "det-2", "wavelength"),
        3: ("EOS-Aqua", "modis", "20", "det-1", "wavenumber"), 4: ("EOS-Aqua", "modis", "21", "det-1", "wavelength"),
        5: ("EOS-Terra", "modis", "20", "det-1", "wavelength"),
        6: ("Suomi-NPP", "viirs", "M12", "det-1", "wavelength"), 7: ("Suomi-NPP", "viirs", "I4", "det-1", "wavelength"),
        8: ("EOS-Aqua", "modis", 3.75, "det-1", "wavelength"), 9: ("NOAA-20", "viirs", "M12", "det-1", "wavelength"),
        10: ("EOS-Aqua", "modis", "20", "det-2", "wavenumber"),
        11: ("Meteosat-9", "seviri", "IR3.9", "det-1", "wavelength"),
        12: ("NOAA-21", "viirs", "M12", "det-1", "wavelength"), 13: ("Meteosat-10", "seviri", "IR3.9", "det-1", "wavelength"),
        14: ("EOS-Aqua", "modis", "20", "det-10", "wavelength"),
        # names that are nearly the same
        15: ("Demo-1", "camera-a", "B3.7", "det-1", "wavelength"), 16: ("Demo-1", "camera-a", "B37", "det-1", "wavelength"),
        17: ("Demo-1", "camera-a", "B3_7", "det-1", "wavelength"), 18: ("Demo-1", "camera-b", "B3.7", "det-1", "wavelength"),
        19: ("Demo1", "camera-a", "B3.7", "det-1", "wavelength"), 20: ("Demo-11", "camera-a", "B3.7", "det-1", "wavelength")}
BAND = {k: ("20" if k == 8 else v[2]) for k, v in KEYS.items()}
SUN, NIR, THERM = [45.0, 60.0, 80.0, 10.0], [290.0, 305.3, 270.77, 310.0], [281.2, 299.0, 268.0, 285.4]
TBS = [151.0, 249.95, 300.1, 359.0]


def curve(c, w, skew):
    x = np.linspace(c - w, c + w, 17)
    t = (x - c) / w
    return {"wavelength": x, "response": (1 - t * t) * (1 + skew * t), "central_wavelength": c}


def similar(band, path):
    """Names of other bands which are parts of, or contain, the name of this one."""
    return {n: path for n in (band[:-1], band[1:], band + "0", "X" + band) if n and n not in BAND.values()}


def make_rsr(d):
    d.mkdir()
    for i, pl in enumerate(["EOS-Aqua", "EOS-Terra"]):
        write_rsr(d / f"rsr_modis_{pl}.h5",
                  {"20": {"det-1": curve(3.78 + .01 * i, .09, .1), "det-2": curve(3.80 + .01 * i, .08, -.3),
                          **{f"det-{n}": curve(3.77 + .001 * n, .08, .2) for n in range(3, 11)}},
                   "21": {"det-1": curve(3.92 - .01 * i, .03, .2)}, "1": {"det-1": curve(.65, .03, 0)}},
                  pl, "modis")
    for i, pl in enumerate(["Suomi-NPP", "NOAA-20", "NOAA-21"]):
        write_rsr(d / f"rsr_viirs_{pl}.h5",
                  {"M12": {"det-1": curve(3.69 + .02 * i, .1, .1)}, "I4": {"det-1": curve(3.74, .17 + .01 * i, .1)}},
                  pl, "viirs")
    for i, pl in enumerate(["Meteosat-9", "Meteosat-10"]):
        write_rsr(d / f"rsr_seviri_{pl}.h5", {"IR3.9": {"det-1": curve(3.9 + .02 * i, .3, .1)}}, pl, "seviri")
    for i, (pl, ins) in enumerate([("Demo-1", "cameraa"), ("Demo-1", "camerab"), ("Demo1", "cameraa"), ("Demo-11", "cameraa")]):
        write_rsr(d / f"rsr_{ins}_{pl}.h5", {"B3.7": {"det-1": curve(3.66 + .02 * i, .1, .1)}, "B37": {"det-1": curve(3.75, .1 + .01 * i, .2)},
                                             "B3_7": {"det-1": curve(3.85, .09, -.1 * i)}}, pl, ins)


class Pause:
    """Stop (or die) at the n-th function call after the first file was opened for writing below root."""

    def __init__(self, root, n, how, fds=None):
        self.root, self.left, self.how, self.fds = os.path.realpath(root), n, how, fds
        self.on = self.done = False
        sys.addaudithook(self.audit)

    def audit(self, event, args):
        if self.on or self.done or event != "open":
            return
        path, mode, flags = args
        if isinstance(path, int) or not isinstance(flags, int) or not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
            return
        if os.path.realpath(os.fsdecode(path)).startswith(self.root + "/"):
            self.on = True
            if self.left == 0:
                self.fire()
            else:
                sys.setprofile(self.prof)

    def prof(self, frame, event, arg):
        if event in ("call", "c_call", "c_return"):
            self.left -= 1
            if self.left <= 0 and not self.done:
                sys.setprofile(None)
                self.fire()

    def fire(self):
        self.done = True
        if self.how == "kill":
            os.kill(os.getpid(), signal.SIGKILL)
        if self.how == "call":
            return self.fds()
        os.write(self.fds[1], b"p")
        os.read(self.fds[0], 1)


def main(rec):
    from pyspectral.near_infrared_reflectance import Calculator
    rsr = SCRATCH / "rsr"
    make_rsr(rsr)

    def use(cache, extra=None):
        cfg = SCRATCH / "c.yaml"
        write_config(cfg, rsr_dir=str(rsr), rayleigh_dir=str(SCRATCH / "ray"), tb2rad_dir=str(cache),
                     download_from_internet=False, **(extra or {}))
        os.environ["PSP_CONFIG_FILE"] = str(cfg)

    def make(key):
        pl, ins, band, det, space = KEYS[key]
        return Calculator(pl, ins, band, detector=det, wavespace=space,
                          solar_flux=2.0029281634299037 if space == "wavelength" else 1500.0)

    def ask(c, lut=True):
        r = c.tb2radiance(np.array(TBS), lut=c.lut)["radiance"]
        f = c.reflectance_from_tbs(np.array(SUN), np.array(NIR), np.array(THERM))
        return {"rad": DL(r), "ref": DL(f)}

    alone = {}
    for k in KEYS:
        d = pathlib.Path(tempfile.mkdtemp(dir=SCRATCH))
        use(d)
        c = make(k)
        alone[k] = dict(ask(c), tb=np.array(c.lut["tb"]), table=np.array(c.lut["radiance"]))

    def result(key, ok, val, exc):
        r = {"outcome": "ok" if ok else "error", "err": repr(exc)[:300] if exc else "", "rad": [], "ref": []}
        if ok:
            r.update(val)
        r.update(alone_rad=alone[key]["rad"], alone_ref=alone[key]["ref"])
        return r

    def from_child(key, x):
        if x["outcome"] == "killed":
            return dict(result(key, False, None, "killed"), outcome="killed")
        return result(key, x["outcome"] == "ok", x["ret"], x["err"] + " " + x["msg"] if x["err"] else None)

    def race(k1, k2, at, cache):
        up, down = os.pipe(), os.pipe()
        res_r, res_w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                for fd in (up[0], down[1], res_r):
                    os.close(fd)

                def a():
                    p = Pause(cache, at, "pause", (down[0], up[1]))
                    c = make(k1)
                    sys.setprofile(None)
                    p.done = True
                    return ask(c)
                ok, v, err, exc = attempt(a)
                os.write(res_w, json.dumps(result(k1, ok, v, exc)).encode())
            finally:
                os._exit(0)
        for fd in (up[1], down[0], res_w):
            os.close(fd)
        paused = os.read(up[0], 1) == b"p"
        r2 = from_child(k2, in_child(lambda: ask(make(k2))))
        try:
            os.write(down[1], b"g")
        except BrokenPipeError:
            pass
        data = b""
        while True:
            x = os.read(res_r, 65536)
            if not x:
                break
            data += x
        os.waitpid(pid, 0)
        for fd in (up[0], down[1], res_r):
            os.close(fd)
        return paused, json.loads(data), r2

    def threads(k1, k2, at, cache):
        """The same in one process: the second one in a thread started while the first is held."""
        def both():
            got = []

            def second():
                ok, v, err, exc = attempt(lambda: ask(make(k2)))
                got.append(result(k2, ok, v, exc))

            def meanwhile():
                t = threading.Thread(target=second)
                t.start()
                t.join(60)
            p = Pause(cache, at, "call", meanwhile)
            ok, c, err, exc = attempt(make, k1)
            sys.setprofile(None)
            p.done = True
            v = None
            if ok:
                ok, v, err, exc = attempt(ask, c)
            r1, paused = result(k1, ok, v, exc), bool(got)
            if not got:
                second()
            return [paused, r1, got[0]]
        x = in_child(both)
        assert x["outcome"] == "ok", x
        return x["ret"]

    signal.signal(signal.SIGPIPE, signal.SIG_IGN)
    for case in rec.cases():
        rec.new_history()
        root = pathlib.Path(tempfile.mkdtemp(dir=SCRATCH))
        cache = root / "cache"
        cache.mkdir()
        conf, hist = case["conf"], case["hist"]
        rec.emit("c04", act="start", conf=conf)
        extra, expect, forbid, k0 = None, None, None, hist[0]["key"]
        if conf != "auto":
            sens = f"{KEYS[k0][0]}-{KEYS[k0][1]}"
            (root / "lut").mkdir()
            p = root / "lut" / "custom.npz"
            val = {"dict": {BAND[k0]: str(p), "zz": "/nowhere/x"}, "dictlower": {BAND[k0].lower(): str(p)},
                   "string": str(p), "nonpz": str(root / "lut" / "custom"),
                   "dotted": str(root / "lut" / "custom.v2"), "replaced": str(p),
                   "missingdir": str(root / "not" / "there" / "custom.npz"), "basename": "custom.npz",
                   "otherband": {"7": str(p)}, "otherplatform": str(p),
                   "similarbands": similar(BAND[k0], str(p)),
                   "amongsimilar": {**similar(BAND[k0], str(root / "lut" / "wrong")), BAND[k0]: str(p)}}[conf]
            if conf in ("otherband", "otherplatform", "similarbands"):
                forbid = p
            else:
                expect = cache / "custom.npz" if conf in ("missingdir", "basename") else p
            if conf == "dotted":
                expect = root / "lut" / "custom.v2.npz"
            if conf == "replaced":
                hist[1]["key"] = k0
            extra = {sens if conf != "otherplatform" else "GOES-99-abi": {"tb2rad_lut_filename": val}}
            k1 = hist[1]["key"]
            if KEYS[k1][:2] == KEYS[k0][:2] and (conf not in ("dict", "dictlower", "amongsimilar") or BAND[k1] == BAND[k0]):
                hist[1]["key"] = k0
        planted, factor = False, 2

        def plant():
            rec.rng.choice([np.savez, np.savez_compressed])(root / "new.npz", tb=alone[k0]["tb"], radiance=factor * alone[k0]["table"])
            os.replace(root / "new.npz", expect)
        if expect is not None and rec.rng.random() < 0.4:
            planted = True
            plant()
        use(cache, extra)
        made = []
        for n, s in enumerate(hist):
            if conf == "replaced" and n:        # the user puts another table in its place
                planted, factor = True, 3
                plant()
            op, k, at = s["op"], s["key"], s["at"]
            if op == "create":
                before = snapshot(root)
                ok, c, err, exc = attempt(make, k)
                val = None
                if ok:
                    ok, val, err, exc = attempt(ask, c)
                pl = planted and k == k0
                r = result(k, ok, val, exc)
                there = (forbid is None or not forbid.exists()) and (expect is None or k != k0 or expect.exists())
                up = bool(pl and ok and r["rad"] == DL(c.tb2radiance(np.array(TBS), lut={
                    "tb": alone[k]["tb"], "radiance": factor * alone[k]["table"]})["radiance"]))
                if ok and not pl:
                    made.append((k, c))
                rec.emit("c04", act="create", key=k, conf=conf, r=r, changed=snapshot(root) != before, file_there=there,
                         planted=pl, used_planted=up)
            elif op in ("race", "threads"):
                paused, r1, r2 = (race if op == "race" else threads)(k, s["key2"], at * (1 if at < 10 else 12), cache)
                rec.emit("c04", act="race", key=k, key2=s["key2"], at=at, paused=paused, r=r1, r2=r2)
            else:
                def die():
                    if op == "callkill":
                        Pause(cache, at * (1 if at < 10 else 15), "kill")
                    c = make(k)
                    sys.setprofile(None)
                    return ask(c)
                kw = {}
                if op in ("fskill", "fserror"):
                    kw = {"fs": (str(cache), at % 8 + 1, "kill" if op == "fskill" else "error")}
                if op == "sizekill":
                    kw = {"size_limit": [1, 200, 400, 5000, 16900, 17000, 20000, 33800, 34000][at % 9],
                          "size_kill": at % 2 == 0}
                rec.emit("c04", act="die", how=op, key=k, at=at, r=from_child(k, in_child(die, **kw)))
        for k, c in made[:1]:
            ok, val, err, exc = attempt(ask, c)
            rec.emit("c04", act="again", key=k, r=result(k, ok, val, exc))
        os.environ.pop("PSP_CONFIG_FILE", None)
        shutil.rmtree(root)


if __name__ == "__main__":
    run(main)
