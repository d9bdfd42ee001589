"""The spectral curve utilities on sampled curves."""
import numpy as np

from common import D, DL, attempt, container, run


def main(rec):
    from pyspectral import utils as u
    rng = rec.rng

    def go(x, y, dt, cont="numpy", weight="none", thr="default", perc="default", sort_x=None, sort_y=None):
        """x increasing or decreasing without duplicates (or None); sort_x, sort_y arbitrary."""
        xdt, ydt, dt = dt[:2], dt[-2:], "f4" if "f4" in dt else dt[:2]      # abscissae and responses may differ in type

        def mk(v, dt):
            a = container(v, cont, dt)
            return a, np.array(a, copy=True)

        def obs(act, f, arrs, conv, **extra):
            ok, v, err, exc = attempt(f)
            same = all(np.array_equal(a, b) for a, b in arrs)
            if ok:
                ok, w, err, exc = attempt(conv, v)
            rec.emit("c18", act=act, ok=ok, err=err, same=same, dt=dt, **(w if ok else {k: [] for k in extra.pop("empty", ["val"])}), **extra)
        if sort_x is not None:
            (a, a0), (b, b0) = mk(sort_x, xdt), mk(sort_y, ydt)
            obs("sort", lambda: u.sort_data(a, b), [(a, a0), (b, b0)], lambda v: {"sx": DL(v[0]), "sy": DL(v[1])}, x=DL(a0), y=DL(b0), empty=["sx", "sy"])
        if x is None:
            return
        (a, a0), (b, b0) = mk(x, xdt), mk(y, ydt)
        arrs = [(a, a0), (b, b0)]
        n = len(x)
        pos = all(v >= 0 for v in y) and any(y[i] + y[i + 1] > 0 for i in range(n - 1))
        if pos:
            w = {"none": None, "scalar": 3.0, "array": np.array([rng.uniform(.5, 2) for _ in range(n)]),
                 "rayleigh": 1. / np.array(x, "f8") ** 4}[weight]
            wl = [1.0] * n if w is None else [float(v) for v in np.broadcast_to(w, n)]
            # the abscissae of the code's own rounding: weights are given in double precision
            obs("cwl", (lambda: u.get_central_wave(a, b)) if w is None else rng.choice([lambda: u.get_central_wave(a, b, w), lambda: u.get_central_wave(a, b, weight=w)]),
                arrs, lambda v: {"val": D(v)}, x=DL(a0), y=DL(b0), w=DL(wl))
            ys = sorted(set(float(v) for v in b0))
            t = {"default": .15, "tie": ys[len(ys) // 2]}.get(thr) if thr in ("default", "tie") else float(thr)
            chan = {"wavelength": a, "response": b}
            obs("range", (lambda: u.get_wave_range(chan)) if thr == "default" else rng.choice([lambda: u.get_wave_range(chan, t), lambda: u.get_wave_range(chan, threshold=t)]),
                arrs, lambda v: {"val": DL(v)}, x=DL(a0), y=DL(b0), thr=D(np.asarray(t, ydt)) if ydt == "f4" else D(t))
        if max(y) > 0 and all(v >= 0 for v in y):
            obs("fwhm", lambda: u.get_fullwidth_halfmax(b, a), arrs, lambda v: {"val": D(v)}, x=DL(a0), y=DL(b0))
            # responses with an exactly represented percentage: integers with a sum that is a power of two
            k = np.array([float(v) for v in y])
            k = np.round(k / k.max() * 7)
            tot = k.sum()
            k[rng.randrange(n)] += 2 ** np.ceil(np.log2(tot)) - tot
            (e, e0) = mk(k, ydt)
            cum = np.cumsum(k) / k.sum() * 100
            p = {"default": 1.0, "tie": float(min(cum[len(cum) // 2], 100 - cum[len(cum) // 2]))}.get(perc) if perc in ("default", "tie") else float(perc)
            obs("bounds", (lambda: u.get_bounds_integrated_energy(e, a)) if perc == "default" else rng.choice([lambda: u.get_bounds_integrated_energy(e, a, p), lambda: u.get_bounds_integrated_energy(e, a, ener_perc_lim=p)]),
                arrs + [(e, e0)], lambda v: {"val": DL(v)}, x=DL(a0), y=DL(e0), perc=D(p))

    for c in rec.cases():
        rec.new_history()
        if c["mode"] == "small":
            x = [float(v) for v in c["x"]]
            y = [v / 4 for v in c["y"]]
            mono = all(x[i] < x[i + 1] for i in range(len(x) - 1)) or all(x[i] > x[i + 1] for i in range(len(x) - 1))
            if mono and len(x) > 1:
                for thr, perc in (("default", "default"), ("tie", "tie"), ("0.5", "25"), ("0", "12.5")):
                    go(x, y, "f8", thr=thr, perc=perc, sort_x=x, sort_y=y)
            else:
                go(None, None, "f8", sort_x=x, sort_y=y)
            continue
        n, xdt, ydt = c["n"], c["dt"][:2], c["dt"][-2:]
        peak = {"one": 1.0, "percent": 100.0, "low": .3}[c["peak"]]
        if xdt == "i8":
            x = sorted(rng.sample(range(300, 300 + 5 * n), n))
        else:
            x = sorted(float(np.asarray(rng.uniform(.3, 15), xdt)) for _ in range(n))
            while len(set(x)) < n:
                x = sorted(float(np.asarray(rng.uniform(.3, 15), xdt)) for _ in range(n))
        if ydt == "i8":
            peak = 100
            y = [rng.choice([0, 20, 50, 100, rng.randrange(100)]) for _ in range(n)]
        else:
            y = [float(np.asarray(rng.choice([0., .15, .5, 1., rng.random()]), ydt)) for _ in range(n)]
            if c["peak"] != "one":
                y = [float(np.asarray(v * peak, ydt)) for v in y]
        y[rng.randrange(n)] = peak if ydt != "f4" else float(np.float32(peak))
        if c["order"] == "dec":
            x = x[::-1]
        sx, sy = list(x), list(y)
        for _ in range(c["dup"]):
            i, j = rng.randrange(len(sx)), rng.randrange(len(sx) + 1)
            v = sx[i]
            sx.insert(j, v)
            sy.insert(j, rng.choice([sy[i], y[rng.randrange(n)]]))
        if c["gap"] != "wide" and xdt != "i8":
            # distinct abscissae that lie very close to another one, and curves in metres
            for _ in range(2):
                v = rng.choice(sx)
                t = float(np.nextafter(np.dtype(xdt).type(v), np.dtype(xdt).type(99))) if c["gap"] == "next" else float(np.asarray(v * (1 + 10 ** rng.uniform(-9, -5)), xdt))
                j = rng.randrange(len(sx) + 1)
                sx.insert(j, t)
                sy.insert(j, rng.randrange(99) if ydt == "i8" else float(np.asarray(rng.random(), ydt)))
            if c["gap"] == "metre":
                sx = [float(np.asarray(v * 1e-6, xdt)) for v in sx]
        if c["order"] == "shuffled":
            p = list(range(len(sx)))
            rng.shuffle(p)
            sx, sy = [sx[i] for i in p], [sy[i] for i in p]
        go(x, y, c["dt"], c["cont"], c["weight"], c["thr"], c["perc"], sx, sy)


if __name__ == "__main__":
    run(main)
