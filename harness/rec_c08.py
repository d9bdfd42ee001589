"""Conversions to wavenumbers, integrals and look-ups in any order."""
import copy
import os

import numpy as np

from common import D, DL, SCRATCH, attempt, errclasses, run, write_config, write_rsr
from rec_c06 import digest


def curve_lists(rsr, key):
    return [{"x": DL(v[key]), "y": DL(v["response"])} for b in dict.keys(rsr) for v in dict.__getitem__(rsr, b).values()]


def main(rec):
    from pyspectral.rsr_reader import RelativeSpectralResponse
    from pyspectral.utils import convert2wavenumber
    rng = rec.rng
    cfg = SCRATCH / "c.yaml"
    write_config(cfg, rsr_dir=str(SCRATCH / "r"), rayleigh_dir=str(SCRATCH / "ray"), download_from_internet=False)
    os.environ["PSP_CONFIG_FILE"] = str(cfg)
    names = ["20", "M1", "IR10.8"]
    for n, case in enumerate(rec.cases()):
        rec.new_history()
        c = case["c"]
        dt = c["dt"]
        bands = {}
        for b in names[:c["nbands"]]:
            bands[b] = {}
            for i in range(c["ndet"]):
                lo = rng.uniform(.4, 12)
                x = np.sort(np.array([lo * (1 + rng.random() * .3) for _ in range(c["n"])]).astype(dt))
                while len(set(x.tolist())) < len(x):
                    x = np.sort(np.array([lo * (1 + rng.random() * .3) for _ in range(c["n"])]).astype(dt))
                y = np.array([rng.random() + .01 - (.1 if rng.random() < .1 else 0) for _ in x], dt)     # some slightly negative
                bands[b][f"det-{i + 1}"] = {"wavelength": x, "response": y, "central_wavelength": float(x.mean())}
        fn = SCRATCH / f"f{n}.h5"
        write_rsr(fn, bands, "EOS-Aqua", "modis")
        r = RelativeSpectralResponse(filename=fn)
        fn.unlink()
        dtw = "f8"
        rec.emit("c08", act="new", curves=curve_lists(r.rsr, "wavelength"))
        space = "wavelength"
        for op in case["ops"]:
            before = digest(r.rsr)
            if op == "convert":
                ok, _, err, exc = attempt(r.convert)
                ev = dict(act="convert", ok=ok, errs=errclasses(exc), same=digest(r.rsr) == before, dt=dtw,
                          unit=r.unit, si_scale=D(r.si_scale), curves=[], cwn=[], has_wavelength=False)
                if ok:
                    space = "wavenumber"
                dets = [v for b in dict.keys(r.rsr) for v in dict.__getitem__(r.rsr, b).values()]
                if ok and all("wavenumber" in v for v in dets):
                    ev.update(curves=curve_lists(r.rsr, "wavenumber"),
                              cwn=[D(v.get("central_wavenumber", np.nan)) for v in dets],
                              has_wavelength=any("wavelength" in v for v in dets))
                rec.emit("c08", **ev)
            elif op == "integral":
                bi = rng.randrange(c["nbands"])
                ok, v, err, exc = attempt(r.integral, names[bi])
                rec.emit("c08", act="integral", ok=ok, err=repr(exc)[:200], dt=dt, ints=DL(v.values()) if ok else [],
                         **{"from": bi * c["ndet"] + 1}, same=digest(r.rsr) == before)
            elif op in ("func", "func-again", "copyfunc", "mixedfunc"):
                src = r.rsr
                if op == "copyfunc":
                    src = copy.deepcopy(dict(r.rsr))
                if op == "mixedfunc":    # some detectors are in wavenumber space already
                    src = copy.deepcopy(dict(r.rsr))
                    for v in [v for b in src for v in src[b].values()]:
                        if "wavelength" in v and rng.random() < .5:
                            v["wavenumber"] = 1. / (1e-4 * v.pop("wavelength"))[::-1]
                            v["response"] = v["response"][::-1]
                sb = digest(src)
                ok, v, err, exc = attempt(convert2wavenumber, src)
                if op == "func-again" and ok:
                    ok, v, err, exc = attempt(convert2wavenumber, v[0])
                cw = [x["central_wavelength"] for b in dict.keys(r.rsr) for x in dict.__getitem__(r.rsr, b).values()]
                res = [x for b in v[0] for x in v[0][b].values()] if ok else []
                full = ok and all("wavenumber" in x and "response" in x for x in res)
                rec.emit("c08", act="func", op=op, ok=full, dt=dtw, err=repr(exc)[:200],
                         curves=curve_lists(v[0], "wavenumber") if full else [], unit=v[1]["unit"] if ok else "",
                         si_scale=D(v[1]["si_scale"]) if ok else "nan",
                         cw_kept=[x.get("central_wavelength") for x in res] == cw,
                         same=digest(src) == sb and digest(r.rsr) == before)
                # writing into the result must not reach the source either
            elif op == "lookup":
                ok, v, err, exc = attempt(lambda: [r.rsr[names[0]], r.rsr.get("zz")])
                rec.emit("c08", act="query", op=op, ok=ok, same=digest(r.rsr) == before)
            else:
                ok, v, err, exc = attempt(r.get_bandname_from_wavelength, 500.0)
                rec.emit("c08", act="query", op=op, ok=ok and v is None, same=digest(r.rsr) == before)
        if rng.random() < .3:   # samples in any order: each response stays with its own wavelength
            x = np.array(rng.sample([.4 + k / 64 for k in range(600)], rng.choice([3, 6, 11])), dt)
            if rng.random() < .5:
                x = np.sort(x)[::-1]
            y = np.array(rng.sample(range(1, 200), len(x)), dt) / 256
            ok, v, err, exc = attempt(convert2wavenumber, {"1": {"det-1": {"wavelength": x.copy(), "response": y.copy(), "central_wavelength": 1.0}}})
            d = v[0]["1"]["det-1"] if ok else {}
            rec.emit("c08", act="anyorder", ok=ok, dt=dt, x=DL(x), y=DL(y), gx=DL(d["wavenumber"]) if ok else [], gy=DL(d["response"]) if ok else [])
        if rng.random() < .3:
            x = np.sort(np.array([rng.uniform(.4, 12) for _ in range(6)]).astype(dt))
            resp = {k: np.array([rng.random() for _ in x], dt) for k in ("a", "b")}
            src = {"1": {"det-1": {"wavelength": x, "response": resp, "central_wavelength": 1.0}}}
            keep = copy.deepcopy(src)
            ok, v, err, exc = attempt(convert2wavenumber, src)
            same = np.array_equal(src["1"]["det-1"]["wavelength"], keep["1"]["det-1"]["wavelength"]) and \
                all(np.array_equal(src["1"]["det-1"]["response"][k], keep["1"]["det-1"]["response"][k]) for k in resp) \
                and list(src["1"]["det-1"]) == list(keep["1"]["det-1"])
            d = v[0]["1"]["det-1"] if ok else {}
            ok = ok and isinstance(d.get("response"), dict)
            rec.emit("c08", act="dictresp", ok=ok, dt=dt, same=bool(same),
                     input=[{"x": DL(x), "y": DL(resp[k])} for k in ("a", "b")],
                     curves=[{"x": DL(d["wavenumber"]), "y": DL(d["response"][k])} for k in ("a", "b")] if ok else [])


if __name__ == "__main__":
    run(main)
