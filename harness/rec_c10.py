"""Band radiances, tables, look-ups, the way back and the SEVIRI regression."""
import os

import numpy as np

from common import D, DL, SCRATCH, attempt, container, observe, run, tiled, tiles, worst_tile, write_config, write_rsr


def unchanged(arr, before):
    return bool(np.array_equal(np.asarray(arr), before, equal_nan=True)) if isinstance(arr, np.ndarray) else True


def unit_of(v):
    """The unit of a result together with its scale."""
    return v["unit"] if v["scale"] == 1 else f"{v['scale']} x {v['unit']}"


def main(rec):
    from pyspectral.radiance_tb_conversion import RadTbConverter, SeviriRadTbConverter
    rng = rec.rng
    rsr = SCRATCH / "rsr"
    rsr.mkdir()
    cfg = SCRATCH / "c.yaml"
    write_config(cfg, rsr_dir=str(rsr), rayleigh_dir=str(SCRATCH / "ray"), tb2rad_dir=str(SCRATCH), download_from_internet=False)
    os.environ["PSP_CONFIG_FILE"] = str(cfg)
    curves = {}

    def new_curves():
        for b, lo, hi in (("20", 3.5, 4), ("31", 10.5, 11.8)):
            curves[b] = {}
            for d in (1, 2):
                n = rng.choice([3, 5, 9, 9, 40])
                x = np.sort(np.array([rng.uniform(lo, hi) for _ in range(n)]))
                while np.diff(x).min() < 1e-6:
                    x = np.sort(np.array([rng.uniform(lo, hi) for _ in range(n)]))
                # noise around zero in the wings, as measured curves have it
                below = np.where(np.abs(x - (lo + hi) / 2) > .45 * (hi - lo), rng.choice([0, 0, .5, 1.2]), 0)
                curves[b][f"det-{d}"] = {"wavelength": x, "response": np.array([rng.random() + .01 for _ in x]) - below,
                                         "central_wavelength": float(x.mean())}
        write_rsr(rsr / "rsr_modis_EOS-Aqua.h5", curves, "EOS-Aqua", "modis")

    def si_curve(band, det, space):
        c = curves[band][f"det-{det}"]
        if space == "wavelength":
            return DL(c["wavelength"] * 1e-6), DL(c["response"])
        return DL((1e6 / c["wavelength"])[::-1]), DL(c["response"][::-1])

    def temps(cls, n, dt, res=0.1, first=150.0, last=360.0):
        if dt[0] in "iu":
            v = [rng.randint(120, 380) for _ in range(n)]
            if cls == "extreme":
                v = [rng.choice([0, -300, 1000, 4000, 30000, 32767, 65535, -32768, 3276, 3277, 6553, 6554]) for _ in v]
            if cls == "edges":
                v = [rng.choice([int(first), int(first) - 1, int(last), int(last) - 1, int(last) + 1]) for _ in v]
            lim = np.iinfo(dt)
            return [x if lim.min <= x <= lim.max else 250 for x in v]
        if cls == "wide":
            return [rng.choice([rng.uniform(20, 150), rng.uniform(360, 6000)]) for _ in range(n)]
        if cls == "edges":
            return [rng.choice([first, last, first - res / 3, first + res * .6, last - res * .4, last - res * 1.4, last - res * .999,
                                last + res / 3, first - 1, last + 1]) for _ in range(n)]
        if cls == "extreme":
            return [rng.choice([-999.0, 0.0, 3276.8, 3276.7, 3426.8, 6553.6, 6703.7, 65535.0, 1e9, 3e38, -3e38, 2147483648.0,
                                float("inf"), float("-inf"), 214748365.0, 429496730.0, -32768.0, 655.37, 327.68, 327.69]) for _ in range(n)]
        if cls == "multiples":
            return [first + res * rng.randrange(0, 2000) for _ in range(n)]
        return [rng.uniform(max(first - 3, 1), last + 3) for _ in range(n)]

    made = {}
    for n, c in enumerate(rec.cases()):
        rec.new_history()
        op = c["op"]
        if n % 25 == 0:
            new_curves()
            made.clear()
        band = rng.choice(["20", "31"])
        barg = band
        if rng.random() < .3:
            barg = curves[band]["det-1"]["central_wavelength"] + rng.uniform(-.05, .05)
        dt = c.get("dt", "f8")
        if op == "direct":
            x, y = si_curve(band, c["det"], c["space"])
            cnt = 1 if c["cont"] in ("scalar", "npscalar") else rng.choice([4, 4, 4, 12])
            ins = temps(c["cls"], cnt, dt)
            arr = container(ins, c["cont"], dt, None if c["cont"] in ("scalar", "npscalar", "list") else ((2, cnt // 2) if c["rank"] == 2 else (cnt,)))
            before = np.array(np.asarray(arr))

            def go():
                r = RadTbConverter("EOS-Aqua", "modis", barg, detector=f"det-{c['det']}", wavespace=c["space"])
                v = r.tb2radiance(arr, normalized=c["norm"])
                return observe(v["radiance"]), unit_of(v)
            ok, v, err, exc = attempt(go)
            rec.emit("c10", **c, x=x, y=y, ok=ok, err=repr(exc)[:200], ins=DL(np.array(ins, dt).astype("f8")),
                     vals=v[0]["vals"] if ok else [], unit=v[1] if ok else "", same=unchanged(arr, before))
            if c["cont"] in ("numpy", "dask") and rng.random() < .1:     # the same temperatures many times over
                k = tiles(rng, cnt, 6000)
                big = tiled(rng, ins, dt, k, c["cont"], False)

                def go():
                    r = RadTbConverter("EOS-Aqua", "modis", barg, detector=f"det-{c['det']}", wavespace=c["space"])
                    v = r.tb2radiance(big, normalized=c["norm"])
                    return worst_tile(v["radiance"], k), unit_of(v)
                ok, v, err, exc = attempt(go)
                rec.emit("c10", **c, x=x, y=y, ok=ok, err=repr(exc)[:200], ins=DL(np.array(ins, dt).astype("f8")),
                         vals=v[0] if ok else [], unit=v[1] if ok else "", same=True, big=k)
        elif op == "table":
            x, y = si_curve(band, c["det"], c["space"])
            p = SCRATCH / f"t{n}"

            def go():
                r = RadTbConverter("EOS-Aqua", "modis", barg, detector=f"det-{c['det']}", wavespace=c["space"],
                                   tb_resolution=float(c["res"]))
                r.make_tb2rad_lut(str(p) + (".npz" if c["suffix"] else ""), normalized=c["norm"])
                t = r.read_tb2rad_lut(str(p) + ".npz")
                return np.array(t["tb"]), np.array(t["radiance"])
            ok, v, err, exc = attempt(go)
            ev = dict(n=0, idx=[], tb=[], rad=[])
            if ok:
                tb, rad = v
                ok = tb.ndim == 1 and tb.shape == rad.shape
                idx = sorted({0, len(tb) - 1, *(rng.randrange(len(tb)) for _ in range(4))})
                ev = dict(n=len(tb), idx=idx, tb=DL(tb[idx]), rad=DL(rad[idx])) if ok else ev
                os.remove(str(p) + ".npz")
            rec.emit("c10", **c, x=x, y=y, ok=ok, err=repr(exc)[:200], dt="f8", **ev)
        elif op == "lookup":
            res = float(c["res"])
            ok0, r, err, exc = attempt(RadTbConverter, "EOS-Aqua", "modis", barg, wavespace=c["space"], tb_resolution=res)
            if not ok0:
                rec.emit("c10", **c, ok=False, err=repr(exc), ins=[], got=[], first="150", n=1, norm=True, shape=[], inshape=[], unit="", same=True)
                continue
            first = "150"
            if c["src"] == "made":
                key = (band, c["space"], c["res"])
                if key not in made:
                    p = str(SCRATCH / f"m{n}.npz")

                    def mk():
                        r.make_tb2rad_lut(p)
                        t = r.read_tb2rad_lut(p)
                        return {k: np.array(t[k]) for k in ("tb", "radiance")}, p
                    ok0, made[key], err, exc = attempt(mk)
                table, path = made[key]
                lut = r.read_tb2rad_lut(path) if rng.random() < .5 else table
            else:
                first = rng.choice(["150", "200", "100", "50"])
                size = rng.choice([1, 2, 11, 500])
                vals = rng.sample(range(1, 100000), size)
                table = lut = {"tb": float(first) + res * np.arange(size), "radiance": np.array(vals, "f8") * 2.0 ** -10}
            nt = len(table["tb"])
            cnt = 1 if c["cont"] == "npscalar" else 8
            ins = temps(c["cls"], cnt, dt, res, float(first), float(first) + res * nt)
            arr = container(ins, c["cont"], dt, None if cnt == 1 else {1: (8,), 2: (2, 4), 3: (2, 2, 2)}[c["rank"]], c["chunk"])
            before = np.array(np.asarray(arr))
            norm = rng.random() < .8     # the table is what it was made for

            def go():
                v = r.tb2radiance(arr, lut=lut, **({} if norm and rng.random() < .5 else {"normalized": norm}))
                return observe(v["radiance"]), unit_of(v)
            ok, v, err, exc = attempt(go)

            def entries(vals):
                tr = table["radiance"].astype("f8")
                found = []
                for g in vals:
                    g = float(g)
                    k = int(np.argmin(np.abs(tr - g))) if np.isfinite(g) else 0
                    found.append(k if np.isfinite(g) and abs(tr[k] - g) <= 1e-6 * abs(tr[k]) else -1)
                return found
            got = entries(v[0]["vals"]) if ok else []
            shape = v[0]["shape"] if ok else []
            inshape = list(np.shape(arr))
            if cnt == 1:
                shape = inshape = []
            rec.emit("c10", **c, ok=ok, err=repr(exc)[:200], ins=DL(np.array(ins, dt).astype("f8")), got=got, n=nt, first=first, norm=norm,
                     shape=shape, inshape=inshape, unit=v[1] if ok else "", same=unchanged(arr, before), vals=v[0]["vals"] if ok else [])
            if c["cont"] in ("numpy", "dask") and rng.random() < .03:
                k = tiles(rng, cnt)
                big = tiled(rng, ins, dt, k, c["cont"], rng.random() < .5)

                def go():
                    v = r.tb2radiance(big, lut=lut)
                    return worst_tile(v["radiance"], k), unit_of(v)
                ok, v, err, exc = attempt(go)
                rec.emit("c10", **c, ok=ok, err=repr(exc)[:200], ins=DL(np.array(ins, dt).astype("f8")), got=entries(v[0]) if ok else [], n=nt,
                         first=first, norm=True, shape=[], inshape=[], unit=v[1] if ok else "", same=True, vals=v[0] if ok else [], big=k)
        elif op == "back":
            rads = [rng.uniform(1e4, 3e6) * (1 if c["space"] == "wavelength" else 1e-10) for _ in range(1 if c["cont"] == "npscalar" else 5)]
            arr = container(rads, c["cont"], dt, None, 2 if c["cont"] == "dask" else 0)

            def go():
                r = RadTbConverter("EOS-Aqua", "modis", barg, detector=f"det-{c['det']}", wavespace=c["space"])
                return observe(r.radiance2tb(arr))["vals"]
            ok, v, err, exc = attempt(go)
            rec.emit("c10", **c, ok=ok, err=repr(exc)[:200], cw=D(curves[band][f"det-{c['det']}"]["central_wavelength"]),
                     ins=DL(np.array(rads, dt).astype("f8")), vals=v if ok else [])
        elif op == "sev":
            ins = [rng.uniform(180, 330) for _ in range(1 if c["cont"] == "scalar" else 5)]
            arr = container(ins, c["cont"], dt, None, 2 if c["cont"] == "dask" else 0)

            def go():
                r = SeviriRadTbConverter(c["plat"], c["band"])
                v = r.tb2radiance(arr)
                return observe(v["radiance"])["vals"], observe(r.radiance2tb(v["radiance"]))["vals"], unit_of(v)
            ok, v, err, exc = attempt(go)
            ok = ok and len(v[0]) == len(v[1]) == len(ins)
            rec.emit("c10", **c, ok=ok, err=repr(exc)[:200], ins=DL(np.array(ins, dt).astype("f8")),
                     rad=v[0] if ok else [], back=v[1] if ok else [], unit=v[2] if ok else "")
        else:
            w = c["what"]

            def go():
                if w == "wavespace":
                    RadTbConverter("EOS-Aqua", "modis", "20", wavespace="frequency")
                elif w == "sev-number":
                    SeviriRadTbConverter("Meteosat-9", 3.9)
                elif w == "sev-platform":
                    SeviriRadTbConverter("EOS-Aqua", "IR3.9").tb2radiance(np.array([280.]))
                else:
                    s = SeviriRadTbConverter("Meteosat-9", "IR_108")
                    if w == "sev-lut":
                        s.tb2radiance(np.array([280.]), lut={"tb": np.array([150.]), "radiance": np.array([1.])})
                    else:
                        s.tb2radiance(np.array([280.]), normalized=False)
            ok, v, err, exc = attempt(go)
            rec.emit("c10", **c, ok=ok, err=err)


if __name__ == "__main__":
    run(main)
