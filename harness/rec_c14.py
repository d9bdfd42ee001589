"""Requests to solar spectrum objects."""
import copy

import numpy as np
from numpy.polynomial import polynomial as P

from common import D, DL, SCRATCH, attempt, run


def shifted(coef, x0):
    """Coefficients of p(x0 + u) in u."""
    out = np.zeros(len(coef))
    for k, c in enumerate(coef):
        out[:k + 1] += c * P.polypow([x0, 1.0], k)
    return out


def main(rec):
    from pyspectral.solar import SolarIrradianceSpectrum
    rng = rec.rng
    n = 0
    for case in rec.cases():
        rec.new_history()
        n += 1
        c = case["c"]
        wn = c["space"] == "wavenumber"
        # the spectral axis in use: 3 .. 4 micrometre (2500 .. 3333 per cm)
        kw = {"wavespace": c["space"]} if wn or rng.random() < .5 else {}
        step = {"default": 2.0 if wn else .005, "fine": 1.0 if wn else .001, "finest": .25 if wn else .0005}[c["step"]]
        if c["step"] != "default":
            kw["dlambda"] = step
        lo, hi = (2600.0, 3300.0) if wn else (3.1, 3.9)
        unit = (hi - lo)
        s = [rng.uniform(5, 20), rng.uniform(-4, 4), rng.uniform(-4, 4), rng.uniform(-3, 3)]     # in v = (x - lo) / unit
        scoef = [a / unit ** k for k, a in enumerate(s)]                                        # in x - lo
        if c["file"] == "poly":
            x = np.sort(np.unique(np.concatenate([np.linspace(lo - .05 * unit, hi + .05 * unit, 30),
                                                  [rng.uniform(lo, hi) for _ in range(6)]])))
            x = x[np.concatenate([[True], np.diff(x) > 1e-3 * unit])]
            y = P.polyval(x - lo, scoef)
            if wn:
                wl = (1e4 / x)[::-1]
                irr = y[::-1] / (wl * wl * 0.1)
            else:
                wl, irr = x, y
            fn = SCRATCH / f"s{n}.dat"
            np.savetxt(fn, np.c_[wl, irr], fmt="%.17g")
            kw["filename"] = str(fn) if rng.random() < .5 else fn
        key = "wavenumber" if wn else "wavelength"
        bands, polys = {}, {}
        for b in (1, 2, 3):
            bands[b] = {}
            for d in (1, 2, 3, 12):
                w = rng.uniform(.15, .5) * unit if c["dt"] == "f4" or rng.random() < .7 else rng.uniform(3, 12) * step     # narrow: few steps of integration
                x0 = rng.uniform(lo, hi - w)
                r = [rng.uniform(.3, 1), rng.uniform(-.3, .3), rng.uniform(-.3, .3), rng.uniform(-.2, .2)]
                closed = rng.random() < .3      # no response at the ends
                if closed:
                    r = [0., r[0], -r[0], 0.]
                xs = x0 + w * np.array(sorted([0, 1] + [rng.uniform(.02, .98) for _ in range(rng.choice([5, 10]))]))
                while np.diff(xs).min() < w * (1e-3 if c["dt"] == "f8" else 1e-2):
                    xs = x0 + w * np.array(sorted([0, 1] + [rng.uniform(.02, .98) for _ in range(8)]))
                xs = xs.astype(c["dt"])
                start, end = float(xs[0]), float(xs[-1])
                rc = [a / w ** k for k, a in enumerate(r)]
                bands[b][f"det-{d}"] = {key: xs, "response": P.polyval(xs.astype("f8") - start, rc).astype(c["dt"])}
                if closed:
                    bands[b][f"det-{d}"]["response"][[0, -1]] = 0
                polys[b, d] = (rc, start, end - start)
        ok, obj, err, exc = attempt(SolarIrradianceSpectrum, **kw)
        rec.emit("c14", act="new", ok=ok, err=repr(exc)[:200])
        if not ok:
            continue

        def content(o):
            return [None if a is None else np.array(a) for a in (o.wavelength, o.wavenumber, o.irradiance)]

        def equal(a, b):
            return all((p is None) == (q is None) and (p is None or np.array_equal(p, q)) for p, q in zip(a, b))
        loaded = content(obj)
        const0 = attempt(SolarIrradianceSpectrum(**kw).solar_constant)[1]
        for op in case["ops"]:
            if op["op"] in ("flux", "irr"):
                b, d = op["band"], op["det"]
                if op["form"] == "nodet":
                    d = 1
                sc, mult = float(op["scale"]), float(op["mult"])
                rsr = {k: {key: v[key] / c_ if (c_ := sc) != 1 else v[key].copy(), "response": (v["response"] * np.asarray(mult, v["response"].dtype))}
                       for k, v in bands[b].items()}
                arg = rsr if op["form"] in ("dict", "nodet") else rsr[f"det-{d}"] if op["form"] == "single" else {f"det-{d}": rsr[f"det-{d}"]}
                opts = {"detector": d} if op["form"] in ("dict", "alone") else {}
                keep = copy.deepcopy(arg)

                def call(o):
                    f = o.inband_solarflux if op["op"] == "flux" else o.inband_solarirradiance
                    if sc != 1:
                        return float(f(arg, scale=sc, **opts) if rng.random() < .5 else f(arg, sc, **opts))
                    return float(f(arg, **opts))
                ok, v, err, exc = attempt(call, obj)
                ok2, f2, _, _ = attempt(lambda: call(SolarIrradianceSpectrum(**kw)))
                same = equal(content(obj), loaded)
                for k in (keep if op["form"] != "single" else ["."]):
                    p, q = (keep[k], arg[k]) if k != "." else (keep, arg)
                    same = same and sorted(p) == sorted(q) and all(np.array_equal(p[a], q[a]) for a in p)
                rc, start, L = polys[b, d]
                rec.emit("c14", act="band", ok=ok, err=repr(exc)[:200], q=op["op"], band=b, det=d, mult=op["mult"], form=op["form"],
                         scale=op["scale"], val=D(v) if ok else "nan", fresh=D(f2) if ok2 else "nan", file=c["file"], dt=c["dt"],
                         spec=DL(shifted(scoef, start - lo)), resp=DL(rc), L=D(L), hstep=D(L / max(1, round(L / step)) * 1.0001), same=bool(same))
            elif op["op"] == "const":
                ok, v, err, exc = attempt(lambda: float(obj.solar_constant()))
                small = c["file"] == "poly" and ok
                ax = loaded[1] if wn else loaded[0]
                rec.emit("c14", act="const", ok=ok, val=D(v) if ok else "nan", ref=D(const0) if const0 is not None else "nan",
                         x=DL(ax) if small else [], y=DL(loaded[2]) if small else [], same=equal(content(obj), loaded))
            elif op["op"] == "missing":
                ok, v, err, exc = attempt(SolarIrradianceSpectrum, str(SCRATCH / "nowhere.dat"), **{k: v for k, v in kw.items() if k != "filename"})
                rec.emit("c14", act="missing", ok=ok)
            else:
                if op["op"] == "ipol":
                    if c["file"] == "default":
                        continue    # the whole default spectrum at a fine step is very large
                    ok, v, err, exc = attempt(obj.interpolate)
                else:
                    ok, v, err, exc = attempt(lambda: obj.interpolate(ival_wavelength=(lo + .2 * unit, hi - .3 * unit)))
                rec.emit("c14", act="ipol", ok=ok, err=repr(exc)[:200], same=equal(content(obj), loaded))
        if c["file"] == "poly":
            fn.unlink()


if __name__ == "__main__":
    run(main)
