"""Black-body functions: replay the case classes of GenPlanck with random values."""
import numpy as np
from common import D, DL, attempt, container, observed_call, run, tiled, tiles, worst_tile, NOTHING


def temps(rng, n, cls, dt):
    if dt == "i4":
        return [rng.randint(150, 350) for _ in range(n)]
    if cls == "extreme":
        t0 = 10 ** rng.uniform(-.3, 4.5)
        return [t0 * rng.uniform(1, 3) for _ in range(n)]
    if cls == "wide":
        return [10 ** rng.uniform(0.7, 4.0) for _ in range(n)]
    vals = [rng.uniform(150, 350) for _ in range(n)]
    if cls == "specials":
        for v in (float("nan"), 0.0, float("inf")):
            vals[rng.randrange(n)] = v
    if cls == "nearzero":
        sp = [1e-6, -1e-6, 1.0000001e-6, -1.0000001e-6, 9.999e-7, -250.0, 5e-324, -0.0]
        if dt == "f4":
            sp = [9.9e-7, -9.9e-7, 5e-7, -3e-7, 1e-9, 1e-30, -0.0, -250.0]
        for i in range(n):
            if rng.random() < 0.6:
                vals[i] = rng.choice(sp)
    return vals


def wave(rng, form, cls, dt, temp=None):
    if cls == "extreme":   # any exponent between the Rayleigh-Jeans limit and the underflow of the radiance
        w = 0.01438777 / temp / 10 ** rng.uniform(-4, 2.8)
        return w if form == "wl" else 1.0 / w
    if cls == "wide" and dt == "f8":
        w = 10 ** rng.uniform(-6.4, -4.1)
    else:
        w = rng.uniform(3.2e-6, 14.5e-6)
    return w if form == "wl" else 1.0 / w


def radiance(rng, form, w, cls, n, dt, t0):
    c1, c2 = 6.62606957e-34 * 299792458.0 / 1.3806488e-23, 2 * 6.62606957e-34 * 299792458.0 ** 2
    out = []
    ts = temps(rng, n, "normal" if cls == "specials" else cls, "f8")
    if cls == "extreme":
        ts = [t0 * rng.uniform(1, 3) for _ in range(n)]
    for t in ts:
        t = max(t, c1 / (w if form == "wl" else 1 / w) / 600)  # keep the radiance representable
        if form == "wl":
            r = c2 / w ** 5 / (np.expm1(c1 / w / t))
        else:
            r = c2 * w ** 3 / np.expm1(c1 * w / t)
        out.append(float(r))
    if dt == "i4":
        out = [max(1, int(r)) for r in out]
    if cls == "specials":
        for v in (float("nan"), 0.0, float("inf"), -out[0]):
            out[rng.randrange(n)] = v
    return out


def main(rec):
    from pyspectral.blackbody import blackbody, blackbody_rad2temp, blackbody_wn, blackbody_wn_rad2temp, planck
    rng = rec.rng
    for c in rec.cases():
        for rep in range(4 if rec.thorough else 1):
            rec.new_history()
            op, form, cont, dt, cls = c["op"], c["form"], c["cont"], c["dt"], c["cls"]
            n = 1 if cont in ("scalar", "npscalar") else rng.choice([4, 6, 9, 24])
            shape = (n,) if c["rank"] == 1 else {4: (2, 2), 6: (2, 3), 9: (3, 3), 24: (2, 3, 4)}.get(n, (1, n))
            ascending = False
            if op == "fwd":
                ins = temps(rng, n, cls, dt)
                if cls == "normal" and c["waves"] != "many" and rng.random() < 0.4 and n > 1:
                    ins = sorted(ins)
                    ascending = len(set(ins)) == n and min(b - a for a, b in zip(ins, ins[1:])) > 0.05
                nw = 1 if c["waves"] != "many" else rng.choice([2, 5])
                ws = [wave(rng, form, cls, dt, min(ins)) for _ in range(nw)]
                if c["waves"] in ("int", "int32"):
                    ws = [float(round(x)) for x in ws]
                w = ws[0] if c["waves"] == "scalar" else np.array(ws)
                if c["waves"] == "int":
                    w = int(ws[0])
                if c["waves"] == "int32":
                    w = np.array(ws).astype("int32")
                fns = {"wl": blackbody, "wn": blackbody_wn}
                fn = fns[form]
                if rng.random() < 0.3:
                    def fn(w_, t_, _f=form):
                        return planck(w_, t_, wavelength=(_f == "wl"))
            else:
                t0 = 10 ** rng.uniform(-.3, 4.5)
                ws = [wave(rng, form, cls, dt, t0)]
                if c["waves"] in ("int", "int32"):
                    ws = [float(round(x)) for x in ws]
                if c["waves"] == "np32":
                    ws = [float(np.float32(ws[0]))]
                ins = radiance(rng, form, ws[0], cls, n, dt, t0)
                w = {"np64": np.float64, "np32": np.float32, "int": int, "int32": np.int32}.get(c["waves"], float)(ws[0])
                fn = {"wl": blackbody_rad2temp, "wn": blackbody_wn_rad2temp}[form]
                if c["waves"] == "keyword":
                    key = {"wl": "wavelength", "wn": "wavenumber"}[form]

                    def fn(w_, r_, _fn=fn, _k=key):
                        return _fn(**{_k: w_, "radiance": r_})
            mask = [rng.random() < 0.3 for _ in range(n)]
            arr = container(ins, cont, dt, shape if cont not in ("scalar", "npscalar", "list") else None,
                            c["chunk"], mask)
            real_ins = DL(np.array(ins, dtype=dt).astype("f8"))
            before = np.array(ins, dtype=dt)
            r = observed_call(fn, w, arr)
            same = True
            if cont in ("numpy", "fortran", "strided", "masked", "readonly", "swapped"):
                same = bool(np.array_equal(np.asarray(arr).ravel(), before, equal_nan=True))
            eff = "f4" if (dt == "f4" or c["waves"] == "np32") else "f8"
            rec.emit(op if op != "inv" else "inv", op=op, form=form, cont=cont, dt=eff, waves=DL(ws), ins=real_ins,
                     inmask=mask, unchanged=same, ascending=ascending and r["ok"], chunk=c["chunk"], cls=cls,
                     indt=dt, wk=c["waves"], **r)
            # the same values many times over
            if cont in ("numpy", "dask") and cls in ("normal", "wide", "specials") and rng.random() < .12:
                k = tiles(rng, n, 70000 if len(ws) > 1 else 300000)
                big = tiled(rng, ins, dt, k, cont, rng.random() < .4)
                ok, vals, err, exc = attempt(lambda: worst_tile(fn(w, big), k))
                rec.emit(op, op=op, form=form, cont="numpy", dt=eff, waves=DL(ws), ins=real_ins, inmask=[False] * n, unchanged=True,
                         ascending=False, chunk=0, cls=cls, indt=dt, wk=c["waves"], big=k, ok=ok, err=err, msg=str(exc)[:300],
                         vals=vals if ok else [], mask=[False] * len(vals if ok else []))
            # round trip through the code itself
            if op == "fwd" and cls in ("normal", "wide", "extreme") and c["waves"] != "many" and dt != "i4":
                inv = {"wl": blackbody_rad2temp, "wn": blackbody_wn_rad2temp}[form]

                def chain():
                    return inv(ws[0], np.asarray(fn(np.array(ws), np.array(ins, dtype="f8"))))
                ok_ins = np.array(ins, dtype="f8")
                lam = ws[0] if form == "wl" else 1 / ws[0]
                x = 0.01438777 / lam / ok_ins
                if x.max() < 600 and x.min() > 2e-5:
                    r = observed_call(chain)
                    rec.emit("rt", op="rt", form=form, cont="numpy", dt="f8", waves=DL(ws), ins=DL(ok_ins),
                             inmask=[False] * n, unchanged=True, ascending=False, chunk=0, cls=cls,
                             indt="f8", wk="one", **r)


run(main)
