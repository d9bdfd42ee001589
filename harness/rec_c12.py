"""Rayleigh corrections over several tables, containers, chunkings and precisions."""
import os

import numpy as np

from common import D, DL, SCRATCH, attempt, container, errclasses, kind_of, observe, run, tiled, tiles, worst_tile, write_config, write_rsr


def nested(a):
    return DL(a) if a.ndim == 1 else [nested(x) for x in a]


def main(rec):
    import dask.array as da
    import h5py
    from pyspectral.rayleigh import Rayleigh
    from pyspectral.utils import get_rayleigh_lut_dir
    rng = rec.rng
    rsr = SCRATCH / "rsr"
    rsr.mkdir()
    cfg = SCRATCH / "c.yaml"
    write_config(cfg, rsr_dir=str(rsr), rayleigh_dir=str(SCRATCH / "ray"), tb2rad_dir=str(SCRATCH), download_from_internet=False)
    os.environ["PSP_CONFIG_FILE"] = str(cfg)
    bands = {}
    for b, lo in (("M4", .50), ("M5", .62), ("M10", 1.5)):
        x = np.sort(np.array([lo + rng.random() * .1 for _ in range({"M4": 6, "M5": 80, "M10": 9}[b])]))
        bands[b] = {f"det-{i}": {"wavelength": x + .003 * (i - 1), "response": np.array([rng.random() + .05 for _ in x]),
                                 "central_wavelength": float(x.mean())} for i in (1, 2)}
    write_rsr(rsr / "rsr_viirs_Suomi-NPP.h5", bands, "Suomi-NPP", "viirs")

    tables = {}

    def make_table(aer, atm):
        d = get_rayleigh_lut_dir(aer)
        os.makedirs(d, exist_ok=True)
        lo, hi = rng.choice([(400., 800.), (400., 800.), (350., 720.), (470., 1000.), (520., 700.)])
        wl = np.array([lo, lo + (hi - lo) * rng.uniform(.1, .4), lo + (hi - lo) * rng.uniform(.45, .75), hi])
        ns, na, nq = rng.choice([2, 3, 4]), rng.choice([2, 3, 5]), rng.choice([2, 3])
        shi, qhi = rng.choice([3.0, 5.0, 24.75]), rng.choice([2.5, 3.0])
        v = rec.np_rng.random((4, ns, na, nq)) * rng.choice([.4, 1.0, 1.3])
        if shi > 20:   # keep the gradient in the secant moderate
            v = v * .2
        ax = lambda lo, hi, n: {"lo": D(lo), "hi": D(hi), "n": n}  # noqa: E731
        fn = os.path.join(d, f"rayleigh_lut_{atm.replace(' ', '_')}.h5")
        with h5py.File(fn + ".new", "w") as h:
            h["reflectance"], h["wavelengths"] = v, wl
            h["azimuth_difference"] = np.linspace(0, 180, na)
            h["satellite_zenith_secant"] = np.linspace(1, qhi, nq)
            h["sun_zenith_secant"] = np.linspace(1, shi, ns)
        os.replace(fn + ".new", fn)
        tables[aer, atm] = dict(wl=DL(wl), sun=ax(1, shi, ns), az=ax(0, 180, na), sat=ax(1, qhi, nq), v=nested(v))

    for key in (("marine_clean_aerosol", "us-standard"), ("marine_clean_aerosol", "tropical"),
                ("rayleigh_only", "us-standard"), ("desert_aerosol", "midlatitude summer")):
        make_table(*key)
    objs = {}

    def obj(key):
        if key not in objs or rng.random() < .3:
            aer, atm = key
            kw = {"aerosol_type": aer, "atmosphere": atm}
            if key == ("marine_clean_aerosol", "us-standard") and rng.random() < .5:
                kw = {}
            objs[key] = Rayleigh("Suomi-NPP", "viirs", **kw)
        return objs[key]

    shapes = {1: (6,), 2: (2, 3), 3: (2, 1, 3)}
    for c in rec.cases():
        rec.new_history()
        key = rng.choice(list(tables))
        if rng.random() < .1:      # a new release of the table, in the same place
            make_table(*key)
        t = tables[key]
        npx = 1 if c["cont"] == "npscalar" else 24 if c["op"] == "get" and rng.random() < .05 else 6
        shape = None if npx == 1 else {6: shapes, 24: {1: (24,), 2: (4, 6), 3: (2, 3, 4)}}[npx][c["rank"]]
        single = c["dt"] in ("f4", "mix")
        if c["op"] == "refuse":
            w = c["wave"]
            sh = (2, 3)
            args = [container([30.] * 6, c["cont"], "f8", sh, 1 if c["cont"] == "dask" else 0) for _ in range(3)]
            red = None if c["red"] == "none" else container([10.] * 6, c["cont"], "f8", sh, 1 if c["cont"] == "dask" else 0)

            def go():
                if w == "atm":
                    return Rayleigh("Suomi-NPP", "viirs", atmosphere="martian")
                if w == "aerosol":
                    return Rayleigh("Suomi-NPP", "viirs", aerosol_type="soot_bombs")
                if w == "noband":
                    return observe(obj(key).get_reflectance(*args, "M99", red))
                d = get_rayleigh_lut_dir("urban_aerosol")
                os.makedirs(d, exist_ok=True)
                f = os.path.join(d, "rayleigh_lut_tropical.h5")
                if os.path.exists(f):
                    os.remove(f)
                if w == "corrupt":
                    open(f, "wb").write(b"not an hdf5 file")
                elif w == "missingdata":
                    with h5py.File(f, "w") as h:
                        h["wavelengths"] = np.array([400., 800.])
                return observe(Rayleigh("Suomi-NPP", "viirs", aerosol_type="urban_aerosol", atmosphere="tropical").get_reflectance(*args, .55, red))
            ok, v, err, exc = attempt(go)
            rec.emit("c12", act="refuse", ok=ok, err=err, **{k: c[k] for k in ("wave", "cont", "red")})
            continue
        if c["op"] == "reduce":
            th = rng.choice([60., 70.])
            mx = th + rng.choice([10., 25.])
            st = rng.choice([0., .3, 1.])
            z = [rng.uniform(0, 90) if c["cls"] == "normal" else rng.choice([th, mx, mx + 3, th - .125, 0.0, (th + mx) / 2]) for _ in range(6)]
            r = [rng.uniform(0, 30) for _ in z]
            za = container(z, c["cont"], c["dt"], shape, 2 if c["cont"] == "dask" else 0)
            ra = container(r, c["cont"], c["dt"], shape, 2 if c["cont"] == "dask" else 0)
            ok, v, err, exc = attempt(lambda: observe(Rayleigh.reduce_rayleigh_highzenith(za, ra, th, mx, st)))
            rec.emit("c12", act="reduce", ok=ok, err=repr(exc)[:200], z=DL(np.array(z, c["dt"]).astype("f8")),
                     r=DL(np.array(r, c["dt"]).astype("f8")), th=D(th), mx=D(mx), str=D(st), vals=v["vals"] if ok else [], single=single)
            continue
        rec.emit("c12", act="tab", t=t, key=list(key))
        smax = [np.degrees(np.arccos(1 / float(t[a]["hi"]))) for a in ("sun", "sat")]
        ints = c["dt"] == "i4"

        def zen(m):
            if c["cls"] == "edges":
                x = rng.choice([0.0, 90.0, m, m + .01, m - .01, -3.0, 60.0, 95.0, 180.0])
                if single and abs(x - m) < .05:
                    x = m + 1
            elif c["cls"] == "nan" and rng.random() < .3:
                x = float("nan")
            else:
                x = rng.uniform(0, min(m + 6, 95))
            return int(x) if ints else x
        data = {"sun": [zen(smax[0]) for _ in range(npx)], "sat": [zen(smax[1]) for _ in range(npx)],
                "az": [rng.choice([0, 180, 90, 45]) if ints or c["cls"] == "edges" else rng.uniform(0, 180) for _ in range(npx)]}
        lo, hi = {"dark": (0, 25), "cloudy": (15, 130), "none": (0, 1)}[c["red"]]
        data["red"] = [rng.choice([lo, 20, 100, hi]) if c["cls"] == "edges" else rng.uniform(lo, hi) for _ in range(npx)]
        if ints:
            data["red"] = [int(x) for x in data["red"]]
        if c["cls"] == "nan" and c["wave"] in ("in", "name"):
            data["red"][rng.randrange(npx)] = float("nan")
        dts = {a: rng.choice(["f4", "f8"]) if c["dt"] == "mix" else c["dt"] for a in data}
        if ints and rng.random() < .3:
            dts["red"] = "f8"
        chunk = c["chunk"]
        arrs = {}
        for a in data:
            cont = c["cont"]
            ch = chunk
            if cont == "mixed":
                cont = rng.choice(["numpy", "dask"])
                ch = rng.choice([1, 2, 0])
            if cont == "dask-uneven":
                cont, ch = "dask", rng.choice([0, 1, 2, 3])
            arrs[a] = container(data[a], cont, dts[a], shape, ch)
        wlo, whi = float(t["wl"][0]) / 1000, float(t["wl"][-1]) / 1000
        wave = {"in": rng.uniform(wlo + .003, whi - .003), "node": float(rng.choice(t["wl"][1:3])) / 1000, "low": rng.choice([rng.uniform(.2, wlo - .001), wlo - .002]), "high": rng.choice([rng.uniform(whi + .001, 2.5), whi + .002]),
                "name": rng.choice(["M5", "M4", "M10"]), "alias": rng.choice(["M05", "M04"])}[c["wave"]]
        if c["wave"] == "in" and rng.random() < .2:
            wave = rng.choice([np.float64, np.float32])(wave)
            single = single or isinstance(wave, np.float32)
        if c["wave"] == "high" and rng.random() < .3:
            wave = rng.choice([x for x in (1, 2, np.int64(1), np.float32(1.5), 3) if x > whi + .001])
        x = y = []
        if isinstance(wave, str):
            b = {"M05": "M5", "M04": "M4"}.get(wave, wave)
            x, y = DL(bands[b]["det-1"]["wavelength"]), DL(bands[b]["det-1"]["response"])
        red = None if c["red"] == "none" else arrs["red"]
        before = {a: np.array(v) for a, v in arrs.items() if isinstance(v, np.ndarray)}

        def go():
            r = obj(key).get_reflectance(arrs["sun"], arrs["sat"], arrs["az"], wave, *(() if red is None and rng.random() < .5 else (red,)))
            return observe(r), kind_of(r)
        ok, v, err, exc = attempt(go)
        seen = {a: DL(np.array(data[a], dts[a]).astype("f8")) for a in data}
        rec.emit("c12", act="get", **{k: c[k] for k in ("cont", "dt", "rank", "chunk", "cls")}, wkind=c["wave"], redkind=c["red"],
                 ok=ok, err=repr(exc)[:300], w=D(float(wave) * 1000.0) if not isinstance(wave, str) else "nan", x=x, y=y,
                 px=[{"sun": seen["sun"][i], "sat": seen["sat"][i], "az": seen["az"][i],
                      "red": "none" if red is None else seen["red"][i]} for i in range(npx)],
                 vals=v[0]["vals"] if ok else [], shape=v[0]["shape"] if ok else [], inshape=list(np.shape(arrs["sun"])),
                 lazy=ok and v[1] == "dask", inlazy=isinstance(arrs["sun"], da.Array),
                 same=all(np.array_equal(np.asarray(arrs[a]), b, equal_nan=True) for a, b in before.items()), single=single)
        if c["cont"] in ("numpy", "dask") and rng.random() < .05:      # the same pixels many times over
            k = tiles(rng, npx, 70000)
            rows = rng.random() < .5
            big = {a: tiled(rng, data[a], dts[a], k, c["cont"], rows) for a in data}
            ok, vals, err, exc = attempt(lambda: worst_tile(obj(key).get_reflectance(big["sun"], big["sat"], big["az"], wave,
                                                                                       None if red is None else big["red"]), k))
            rec.emit("c12", act="get", **{k_: c[k_] for k_ in ("cont", "dt", "rank", "chunk", "cls")}, wkind=c["wave"], redkind=c["red"],
                     ok=ok, err=repr(exc)[:300], w=D(float(wave) * 1000.0) if not isinstance(wave, str) else "nan", x=x, y=y,
                     px=[{"sun": seen["sun"][i], "sat": seen["sat"][i], "az": seen["az"][i],
                          "red": "none" if red is None else seen["red"][i]} for i in range(npx)],
                     vals=vals if ok else [], shape=[], inshape=[], lazy=False, inlazy=False, same=True, single=single, big=k)


if __name__ == "__main__":
    run(main)
