"""Band look-ups by name and wavelength."""
import hashlib
import json
import os
import pathlib

import numpy as np

from common import D, DL, REPO, SCRATCH, attempt, run, write_config, write_rsr

TABLES = json.loads((pathlib.Path(__file__).resolve().parents[1] / "spec" / "data" / "bandnames.json").read_text())


def digest(rsr):
    h = hashlib.sha1()
    for b in sorted(dict.keys(rsr)):
        h.update(b.encode())
        for d, v in dict.__getitem__(rsr, b).items():
            h.update(d.encode())
            for k in sorted(v):
                h.update(k.encode() + np.asarray(v[k]).tobytes())
    return h.hexdigest() + str(list(dict.keys(rsr)))


def main(rec):
    from pyspectral.rsr_reader import RelativeSpectralResponse, RSRDict
    from pyspectral.utils import get_bandname_from_wavelength
    rng = rec.rng
    cfg = SCRATCH / "c.yaml"
    write_config(cfg, rsr_dir=str(SCRATCH / "r"), rayleigh_dir=str(SCRATCH / "ray"), download_from_internet=False)
    os.environ["PSP_CONFIG_FILE"] = str(cfg)
    for n, c in enumerate(rec.cases()):
        rec.new_history()
        inst = c["inst"]
        tab, gen = TABLES.get(inst, {}), TABLES["generic"]
        targets, keys, gtargets = sorted(set(tab.values())), sorted(tab), sorted(set(gen.values()))

        def some(x):
            return [v for v in x if rng.random() < 0.5]
        store = {"targets": targets, "some-targets": some(targets), "keys": keys, "some-keys": some(keys),
                 "mixed": sorted(set(some(targets) + some(keys) + some(gtargets))), "generic": gtargets,
                 "some-generic": some(gtargets), "generic-keys": some(sorted(gen)), "overlap": sorted(set(some(keys) + some(gtargets)))}[c["store"]]
        store = list(store) or ["odd band"]
        rng.shuffle(store)
        store = store[:14] if c["store"] != "targets" else store
        # wavelengths on a 1/64 grid: differences and comparisons are exact
        base = rng.randint(32, 600)
        if c["cwl"] == "apart":
            q = [base + 200 * i for i in range(len(store))]
        elif c["cwl"] == "near":
            q = [base + rng.randint(0, 20) for _ in store]
        elif c["cwl"] == "equal":
            q = [base + 300 * (i // 2) for i in range(len(store))]
        else:
            q = [base + 8 * i for i in range(len(store))]
        cws = [v / 64 for v in q]
        bands = {}
        for i, (b, cw) in enumerate(zip(store, cws)):
            x = np.linspace(cw * .9, cw * 1.1, 3)
            bands[b] = {"det-1": {"wavelength": x, "response": np.array([.1, 1., .2 + i / 64]), "central_wavelength": cw}}
            if rng.random() < .4:
                bands[b]["det-2"] = dict(bands[b]["det-1"], central_wavelength=cw + 3)
        fn = SCRATCH / f"f{n}.h5"
        write_rsr(fn, bands, "Some-Sat", inst)
        r = RelativeSpectralResponse(filename=fn)
        fn.unlink()
        if c["converted"]:
            r.convert()
        rec.emit("c06", act="open", inst=inst, bands=store, cws=DL(cws), store=c["store"])

        def key(v):   # bands are told apart by their responses
            return tuple(sorted(np.asarray(v["det-1"]["response"]).tolist()))
        of = {key(dict.__getitem__(r.rsr, b)): b for b in dict.keys(r.rsr)}
        before = digest(r.rsr)
        ks = sorted(set(keys + sorted(gen) + targets + gtargets + store +
                        ["", "nothing", "VIS006 ", "ch0", "ch37", "37", "vis006", "det-1"] + [b.lower() for b in store[:5]] + [b.upper() for b in store[:5]]))
        got, raised, gotget = [], [], []
        missing = object()
        for k in ks:
            ok, v, err, exc = attempt(lambda: r.rsr[k])
            got.append("NoBand" if not ok else of.get(key(v), "?"))
            raised.append(err == "KeyError")
            v = r.rsr.get(k, missing)
            gotget.append("NoBand" if v is missing else of.get(key(v), "?"))
            if v is missing and r.rsr.get(k) is not None:
                gotget[-1] = "?"
        rec.emit("c06", act="names", keys=ks, got=got, raised=raised, gotget=gotget, same=digest(r.rsr) == before,
                 cost=60)
        # a mapping of band names to anything, for values that count as false too
        plain = RSRDict(inst)
        things = {b: rng.choice([0, 0.0, None, "", {}, [], False, 1.5]) for b in store}
        plain.update(things)
        got, gotget, raised = [], [], []
        pk = rng.sample(ks, min(len(ks), 25))
        for k in pk:
            ok, v, err, exc = attempt(lambda: plain[k])
            g = plain.get(k, missing)
            got.append(repr(v) if ok else "NoBand")
            raised.append(err == "KeyError")
            gotget.append("NoBand" if g is missing else repr(g))
        rec.emit("c06", act="things", bands=list(things), things=[repr(v) for v in things.values()], keys=pk, got=got, raised=raised,
                 gotget=gotget, same=list(plain) == list(things) and all(dict.__getitem__(plain, b) is things[b] for b in things))
        for _ in range(40 if rec.thorough else 14):
            eps = rng.choice([0.125, 0.25, 0.5, 1.0, 2.0, 3.0, 0.1, 0.015625, 0.0, 6.0])
            w = rng.choice(cws) + rng.choice([0, eps, -eps, 2, -2, eps - 1 / 64, 1 / 64 - eps, 2 - 1 / 64, .1, 5 / 64,
                                              rng.randint(-40, 40) / 64])
            mult = rng.random() < 0.5
            kw = {}
            if eps != 0.1 or rng.random() < .5:
                kw["epsilon"] = eps
            if mult or rng.random() < .5:
                kw["multiple_bands"] = mult
            if rng.random() < .3:
                w = np.float64(w)
            if rng.random() < .5:
                ok, v, err, exc = attempt(r.get_bandname_from_wavelength, w, **kw)
            else:
                ok, v, err, exc = attempt(get_bandname_from_wavelength, inst, w, r.rsr, **kw)
            if not ok:
                out, names = ("error" if err == "AttributeError" else "other error " + err), []
            elif v is None:
                out, names = "none", []
            elif isinstance(v, str):
                out, names = "one", [v]
            else:
                out, names = "many", list(v)
            rec.emit("c06", act="wave", w=D(w), eps=D(eps), multiple=mult, outcome=out, names=names,
                     same=digest(r.rsr) == before)


if __name__ == "__main__":
    run(main)
