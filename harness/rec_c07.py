"""Instrument names on every platform, in every spelling."""
import os
import shutil

import numpy as np

from common import SCRATCH, attempt, errclasses, run, write_config, write_rsr


def main(rec):
    from pyspectral.rayleigh import Rayleigh
    from pyspectral.rsr_reader import RelativeSpectralResponse
    from pyspectral.utils import are_instruments_identical, check_and_adjust_instrument_name
    rng = rec.rng
    cfg = SCRATCH / "c.yaml"
    d = SCRATCH / "rsr"
    write_config(cfg, rsr_dir=str(d), rayleigh_dir=str(SCRATCH / "ray"), download_from_internet=False)
    os.environ["PSP_CONFIG_FILE"] = str(cfg)
    x = np.array([.5, .6, .7])
    for c in rec.cases():
        rec.new_history()
        p = c["platform"]
        d.mkdir(exist_ok=True)
        for n in c["norms"]:
            fn = f"rsr_{n}_{p}.h5"
            write_rsr(d / fn, {"1": {"det-1": {"wavelength": x, "response": x, "central_wavelength": .6}}}, p, n,
                      description=fn)
        for i in c["asked"]:
            ok, v, err, exc = attempt(check_and_adjust_instrument_name, p, i)
            again = attempt(check_and_adjust_instrument_name, p, v)[1] if ok else ""
            rec.emit("c07", act="resolve", p=p, i=i, ok=ok, got=v or "", again=again or "", err=repr(exc)[:200])
            for n in [i.lower()] + rng.sample(c["carried"], min(2, len(c["carried"]))):
                ok, v, err, exc = attempt(are_instruments_identical, n, i.lower())
                rec.emit("c07", act="same", a=n, b=i.lower(), ok=ok, got=bool(v), err=repr(exc)[:200])
            if rec.thorough or rng.random() < .6:
                ok, v, err, exc = attempt(RelativeSpectralResponse, p, i)
                rec.emit("c07", act="open", p=p, i=i, ok=ok, file=os.path.basename(v.filename) if ok else "",
                         description=v.description if ok else "", instrument=v.instrument if ok else "",
                         platform=v.platform_name if ok else "", err=repr(exc)[:200])
            ok, v, err, exc = attempt(lambda: Rayleigh(p, i, aerosol_type="rayleigh_only").sensor)
            rec.emit("c07", act="sensor", p=p, i=i, ok=ok, got=v or "", errs=errclasses(exc))
        shutil.rmtree(d)


run(main)
