"""Requests to 3.x micron reflectance calculators."""
import os

import numpy as np

from common import D, DL, SCRATCH, attempt, container, errclasses, observe, run, tiled, tiles, worst_tile, write_config, write_rsr


def curve(rng, c, w):
    x = np.linspace(c - w, c + w, 7)
    t = (x - c) / w
    return {"wavelength": x, "response": (1.1 - t * t) * (1 + rng.uniform(-.4, .4) * t), "central_wavelength": c + rng.uniform(-.02, .02)}


def main(rec):
    import dask.array as da
    from pyspectral import solar
    from pyspectral.near_infrared_reflectance import Calculator
    rng = rec.rng
    rsr = SCRATCH / "rsr"
    rsr.mkdir()
    cfg = SCRATCH / "c.yaml"
    write_config(cfg, rsr_dir=str(rsr), rayleigh_dir=str(SCRATCH / "ray"), tb2rad_dir=str(SCRATCH), download_from_internet=False)
    os.environ["PSP_CONFIG_FILE"] = str(cfg)
    bands = {"20": {f"det-{i}": curve(rng, rng.uniform(3.6, 3.9), rng.uniform(.05, .12)) for i in (1, 2)},
             "31": {"det-1": curve(rng, 11.0, .3)}}
    write_rsr(rsr / "rsr_modis_EOS-Aqua.h5", bands, "EOS-Aqua", "modis")
    e490 = np.genfromtxt(solar.TOTAL_IRRADIANCE_SPECTRUM_2000ASTM, unpack=True)
    calcs, ref = {}, {}

    def flux_ref(det):
        c = bands["20"][f"det-{det}"]
        x = np.linspace(c["wavelength"][0], c["wavelength"][-1], 400)
        t = np.interp(x, *e490) * np.polyval(np.polyfit(c["wavelength"] - 3.7, c["response"], 3), x - 3.7)
        return float(np.trapezoid(t, x))

    def temps(cls, n, ints, base):
        if ints:
            return [rng.randint(220, 320) for _ in range(n)]

        def nice():   # well inside a table step
            return (rng.randrange(base - 600, base + 450) + rng.uniform(.2, .8)) / 10
        out = [nice() for _ in range(n)]
        if cls == "wild":
            out = [rng.choice([nice(), 150.0, 149.2, 360.0, 359.95, 100.03, 500.0, 2.5, 5000.0, 3.0e4]) for _ in out]
        return out

    n = 0
    for case in rec.cases():
        rec.new_history()
        n += 1
        c = case["c"]
        key = tuple(sorted(c.items()))
        if key not in calcs:
            kw = dict(detector=f"det-{c['det']}", wavespace=c["space"], sunz_threshold=float(c["thr"]),
                      masking_limit=None if c["limit"] == "none" else float(c["limit"]))
            if c["flux"] == "given":
                kw["solar_flux"] = 2.0029281634299037
            b = "20" if c["band"] == "name" else bands["20"]["det-1"]["central_wavelength"]
            calcs[key] = (attempt(Calculator, "EOS-Aqua", "modis", b, **kw), kw.get("solar_flux"), lambda b=b, kw=kw: Calculator("EOS-Aqua", "modis", b, **kw))
        (ok, calc, err, exc), given, another = calcs[key]
        cv = bands["20"][f"det-{c['det']}"]
        x, y = cv["wavelength"] * 1e-6, cv["response"]
        if c["space"] == "wavenumber":
            x, y = (1 / x)[::-1], y[::-1]
        k = dict(form="wl" if c["space"] == "wavelength" else "wn", x=DL(x), y=DL(y), cw=D(cv["central_wavelength"] * 1e-6),
                 flux=D(calc.solar_flux) if ok else "nan", thr=c["thr"], limit=c["limit"], table=True)
        rec.emit("c11", act="new", ok=ok, err=repr(exc)[:200], k=k, given="none" if given is None else D(given), fluxref=D(flux_ref(c["det"])))
        if not ok:
            continue
        for op in case["ops"]:
            if op["op"] == "refl":
                cont, dt, cls = op["cont"], op["dt"], op["cls"]
                npx = 1 if cont == "scalar" else 24 if op["many"] else 6
                ints = dt == "i4"
                shape = None if cont in ("scalar", "list") else {1: (npx,), 2: (npx // 3, 3), 3: (npx // 6, 2, 3)}[op["rank"]]
                nir, th = temps(cls, npx, ints, 2900), temps(cls, npx, ints, 2750)
                lims = [float(c["thr"]), 85.0 if c["limit"] == "none" else float(c["limit"])]
                sun = [rng.uniform(0, 84) for _ in nir]
                if cls in ("edges", "wild"):
                    sun = [rng.choice([0.0, -0.25, -5.0, *lims, lims[1] + .0625, lims[0] + .5, lims[1] - .0625, 89.5, 90.0, 120.0, 180.0]) for _ in nir]
                if ints:
                    sun = [int(s) for s in sun]
                    sun = [rng.choice([s, int(lims[1]), int(lims[1]) + 1, -1, 0]) for s in sun] if cls == "edges" else sun
                co2 = [t - rng.uniform(2, 25) for t in th]
                if op["co2"] == "scalar":
                    co2 = [rng.uniform(230, 270)] * npx
                if ints:
                    co2 = [int(v) for v in co2]
                masks = {a: [False] * npx for a in ("sun", "nir", "th", "co2")}
                data = {"sun": sun, "nir": nir, "th": th, "co2": co2}
                if op["sun"] == "scalar":
                    data["sun"] = [sun[0]] * npx
                if cls == "missing":
                    for a in masks:
                        if rng.random() < .6 and not (a == "sun" and op["sun"] != "same") and not (a == "co2" and op["co2"] != "array"):
                            i = rng.randrange(npx)
                            if cont in ("masked", "dask-masked") and rng.random() < .7:
                                masks[a][i] = True
                            else:
                                data[a] = list(data[a])
                                data[a][i] = float("nan")
                dts = {a: {"mix": rng.choice(["f4", "f8"])}.get(dt, dt) for a in masks}
                arrs, seen = {}, {}
                chunk = rng.choice([1, 2, 3]) if "dask" in cont else 0
                for a in masks:
                    arrs[a] = container(data[a], cont, dts[a], shape, chunk, masks[a])
                    v = np.array(data[a], dts[a]).astype("f8")
                    v[np.array(masks[a])] = np.nan
                    seen[a] = DL(v)
                plain = rng.choice(["nir", "th"]) if cont == "masked" and rng.random() < .4 else ""
                if plain and not any(masks[plain]):    # only one of the two is a masked array
                    arrs[plain] = container(data[plain], "numpy", dts[plain], shape)
                sarg = arrs["sun"]
                if op["sun"] == "scalar":
                    sarg = container(data["sun"][:1], "scalar", "f8")
                    seen["sun"] = DL([data["sun"][0]] * npx)
                elif op["sun"] == "numpy":
                    sarg = container(data["sun"], "numpy", dts["sun"], shape)
                kw = {}
                if op["co2"] == "array":
                    kw["tb_ir_co2"] = arrs["co2"]
                elif op["co2"] == "scalar":
                    kw["tb_ir_co2"] = float(co2[0])
                    seen["co2"] = DL([float(co2[0])] * npx)
                if op["co2"] == "none":
                    seen["co2"] = ["none"] * npx
                if not op["table"]:
                    kw["lut"] = None
                before = [np.array(np.asarray(v)) for v in arrs.values() if isinstance(v, np.ndarray)]
                ok, v, err, exc = attempt(lambda: observe(calc.reflectance_from_tbs(sarg, arrs["nir"], arrs["th"], **kw)))
                same = all(np.array_equal(np.asarray(a), b, equal_nan=True) for a, b in
                           zip([v_ for v_ in arrs.values() if isinstance(v_, np.ndarray)], before))
                vals = v["vals"] if ok else []
                if ok:
                    ref[key] = True
                    vals = ["nan" if m else x_ for x_, m in zip(vals, v["mask"])]
                rec.emit("c11", act="refl", **{a: op[a] for a in ("cont", "dt", "table", "cls")}, co2kind=op["co2"], ok=ok, err=repr(exc)[:300],
                         px=[{a: seen[a][i] for a in masks} for i in range(npx)], vals=vals,
                         single=dt in ("f4", "mix"), same=bool(same), wantmask=cont == "masked", mask=v["mask"] if ok else [], shape=v["shape"] if ok else [],
                         inshape=list(shape) if shape else [npx])
                if cont in ("numpy", "dask") and op["table"] and rng.random() < .06:     # the same pixels many times over, by another calculator
                    k = tiles(rng, npx)
                    rows = rng.random() < .4
                    big = {a: tiled(rng, data[a], dts[a], k, "numpy", rows) for a in data}
                    if cont == "dask":
                        ch = rng.choice([4096, -1])
                        big = {a: da.from_array(x_, chunks=(ch,) + x_.shape[1:]) for a, x_ in big.items()}
                    bkw = {} if op["co2"] == "none" else {"tb_ir_co2": big["co2"]}
                    sarg = float(data["sun"][0]) if op["sun"] == "scalar" else big["sun"]
                    ok, vals, err, exc = attempt(lambda: worst_tile(another().reflectance_from_tbs(sarg, big["nir"], big["th"], **bkw), k))
                    rec.emit("c11", act="big", cont=cont, dt=dt, table=True, cls=cls, co2kind=op["co2"], ok=ok, err=repr(exc)[:300], big=k,
                             px=[{a: seen[a][i] for a in masks} for i in range(npx)], vals=vals if ok else [], single=dt in ("f4", "mix"),
                             same=True, wantmask=False, mask=[], shape=[], inshape=[])
            elif op["op"] == "emis":
                ok, e, err, exc = attempt(lambda: (observe(calc.emissive_part_3x(tb=False)), observe(calc.emissive_part_3x())))
                if not ok and key not in ref:   # nothing derived yet on this calculator
                    continue
                rec.emit("c11", act="emis", ok=ok, err=repr(exc)[:300], rad=e[0]["vals"] if ok else [], tb=e[1]["vals"] if ok else [])
            elif op["op"] == "shape":
                ok, v, err, exc = attempt(calc.reflectance_from_tbs, np.array([40.] * 3), np.array([290., 280., 270.]), np.array([280., 270.]))
                rec.emit("c11", act="refuse", ok=ok, errs=errclasses(exc))
            else:
                ok, v, err, exc = attempt(calc.derive_rad39_corr, np.array([280.]), np.array([270.]), method="other")
                rec.emit("c11", act="refuse", ok=ok, errs=errclasses(exc))
        if rng.random() < .02:
            ok, v, err, exc = attempt(Calculator, "EOS-Aqua", "modis", "31")
            rec.emit("c11", act="refuse", ok=ok, errs=errclasses(exc))


if __name__ == "__main__":
    run(main)
