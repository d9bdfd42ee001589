"""Viewing-angle corrections."""
import numpy as np

from common import DL, attempt, container, observe, run, tiled, tiles, worst_tile


def snapshot(a):
    """Values and mask of an input array (chunked ones are computed)."""
    if hasattr(a, "compute"):
        a = a.compute(scheduler="synchronous")
    return np.array(np.ma.getdata(a)), np.array(np.ma.getmaskarray(a))


def main(rec):
    from pyspectral.atm_correction_ir import AtmosphericalCorrection
    rng = rec.rng
    shapes = {1: (6,), 2: (2, 3), 3: (3, 1, 2)}
    for c in rec.cases():
        rec.new_history()
        if c["op"] == "refuse":
            w = c["what"]
            kw = {} if w == "none" and rng.random() < .5 else {"atmosphere": {"none": None, "empty": None}.get(w, w)}
            ok, v, err, exc = attempt(AtmosphericalCorrection, "Suomi-NPP", "viirs", **kw)
            rec.emit("c13", act="accept" if w in ("none", "empty") else "refuse", ok=ok, what=w)
            continue
        shape = shapes[c["rank"]]
        cont = c["cont"]
        t = [rng.uniform(175, 335) for _ in range(6)]
        z = [rng.uniform(1, 85) if rng.random() < .7 else 0.0 for _ in t]
        if c["cls"] == "edges":
            z = [rng.choice([0.0, 90.0, -1.0, 89.5, 90.5, 1e-3, 135.0, 180.0, -0.0, 45.0, 1e-9, -1e-9, 89.9999, 90.0001, 1e-30, -330.0, 365.0, 400.0, 450.0, 719.0, -89.0]) for _ in t]
            t = [rng.choice([170.0, 210.0, 295.0, 320.0, 120.0, 360.0, x]) for x in t]
        elif rng.random() < .15:      # one angle for all
            z = [rng.choice([0.0, 0.0, 90.0, 60.0])] * 6
        if c["cls"] == "nan":
            t[rng.randrange(6)] = float("nan")
            z[rng.randrange(6)] = float("nan")
        zdt = c["dt"] if c["zdt"] == "same" else c["zdt"]
        if zdt == "i4":
            z = [int(x) for x in z]
        masked = cont in ("masked", "dask-masked")
        mask = [masked and rng.random() < .35 for _ in t]
        data = np.ma.array(np.array(t, c["dt"]).reshape(shape)) if cont == "nomask" else \
            container(t, cont, c["dt"], shape, c["chunk"], mask)
        zc = c["zcont"] if c["zcont"] != "same" else {"masked": "numpy", "nomask": "numpy", "dask-masked": "dask", "readonly": "readonly"}.get(cont, cont)
        zmask = [zc == "masked" and rng.random() < .3 for _ in z]
        zen = container(z, zc, zdt, shape, rng.choice([c["chunk"], 1, 2, 3]) if zc == "dask" else 0, zmask)
        b1, b2 = snapshot(data), snapshot(zen)

        def go():
            a = AtmosphericalCorrection("Suomi-NPP", "viirs")
            if c["again"]:
                a.get_correction(zen, "M12", data)
            return observe(a.get_correction(zen, rng.choice(["M12", "M4"]), data))
        ok, v, err, exc = attempt(go)
        a1, a2 = snapshot(data), snapshot(zen)
        same = all(np.array_equal(x[0], y[0], equal_nan=True) and np.array_equal(x[1], y[1]) for x, y in ((a1, b1), (a2, b2)))
        rec.emit("c13", act="corr", **{k: c[k] for k in ("cont", "zcont", "dt", "rank", "cls", "again")}, ok=ok, err=repr(exc)[:200],
                 t=DL(np.array(t, c["dt"]).astype("f8")), z=DL(np.array(z, zdt).astype("f8")), inmask=mask, zmask=zmask,
                 vals=v["vals"] if ok else [], mask=v["mask"] if ok else [], shape=v["shape"] if ok else [], inshape=list(shape),
                 single=c["dt"] == "f4", same=bool(same))
        if cont in ("numpy", "dask") and zc == cont and rng.random() < .08:      # the same pixels many times over
            k, rows = tiles(rng, 6), rng.random() < .5
            big, bz = tiled(rng, t, c["dt"], k, cont, rows), tiled(rng, z, zdt, k, cont, rows)
            ok, vals, err, exc = attempt(lambda: worst_tile(AtmosphericalCorrection("Suomi-NPP", "viirs").get_correction(bz, "M12", big), k))
            rec.emit("c13", act="corr", **{k_: c[k_] for k_ in ("cont", "zcont", "dt", "rank", "cls", "again")}, ok=ok, err=repr(exc)[:200],
                     t=DL(np.array(t, c["dt"]).astype("f8")), z=DL(np.array(z, zdt).astype("f8")), inmask=[False] * 6, zmask=[False] * 6,
                     vals=vals if ok else [], mask=[False] * len(vals if ok else []), shape=[], inshape=[], single=c["dt"] == "f4", same=True, big=k)


if __name__ == "__main__":
    run(main)
