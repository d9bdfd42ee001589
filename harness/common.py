"""Shared by the recorders: they run the real pyspectral (from /repo) and write what they observe."""
import argparse
import json
import math
import os
import pathlib
import random
import sys
import traceback
import warnings
from decimal import Decimal

warnings.simplefilter("ignore")
REPO = os.environ.get("VERIF_REPO", "/repo")
SCRATCH = pathlib.Path(os.environ.get("VERIF_SCRATCH") or os.environ.get("TMPDIR", "/tmp"))
os.environ.pop("PSP_CONFIG_FILE", None)

import logging  # noqa: E402

logging.disable(logging.CRITICAL)

import dask  # noqa: E402

dask.config.set(scheduler="synchronous")   # recorders fork; a thread pool would not survive that

import numpy as np  # noqa: E402


def D(x):
    """The exact value of a number as a decimal numeral (or nan / inf / -inf)."""
    x = float(x)
    if math.isnan(x):
        return "nan"
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    if x == 0:
        return "0"
    return str(Decimal(x))


def DL(xs):
    return [D(x) for x in xs]


class Recorder:
    def __init__(self):
        ap = argparse.ArgumentParser()
        ap.add_argument("--out", required=True)
        ap.add_argument("--cases")
        ap.add_argument("--seed", type=int, default=1)
        ap.add_argument("--tier", default="quick")
        ap.add_argument("--shard", type=int, default=0)
        ap.add_argument("--shards", type=int, default=1)
        ap.add_argument("--mode", default="")
        self.a = ap.parse_args()
        self.out = open(self.a.out, "w")
        self.rng = random.Random(f"{self.a.seed}/{self.a.shard}")
        self.np_rng = np.random.default_rng([self.a.seed, self.a.shard])
        self.thorough = self.a.tier == "thorough"
        self.h = 0

    def cases(self):
        with open(self.a.cases) as f:
            for line in f:
                yield json.loads(line)

    def new_history(self):
        self.h += 1
        return self.h

    def emit(self, event, **fields):
        fields = {"event": event, "h": self.h, **fields}
        self.out.write(json.dumps(fields) + "\n")

    def close(self):
        self.out.close()


def in_repo(tb):
    root = os.path.join(REPO, "pyspectral") + os.sep
    return any(os.path.abspath(f.filename).startswith(root) for f in traceback.extract_tb(tb))


def run(main):
    """Run a recorder; an exception escaping from the implementation is recorded as such."""
    rec = Recorder()
    try:
        main(rec)
        rec.close()
    except Exception as e:  # noqa: BLE001
        rec.emit("recorder-crash", in_repo=in_repo(e.__traceback__),
                 odd_result=isinstance(e, (LookupError, TypeError, ValueError, AttributeError, ImportError)), error=repr(e)[:500],
                 tb=traceback.format_exc()[-2500:])
        rec.close()
        traceback.print_exc()
        sys.exit(3)


def attempt(fn, *a, **k):
    """(ok, value, error class name, exception)."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return True, fn(*a, **k), "", None
    except Exception as e:  # noqa: BLE001
        return False, None, type(e).__name__, e


def run_script(name, argv):
    """One of the package's command-line scripts, in this process."""
    import runpy
    old = sys.argv
    sys.argv = [name] + list(argv)
    try:
        runpy.run_path(os.path.join(REPO, "bin", name), run_name="__main__")
    except SystemExit as e:
        if e.code not in (0, None):
            raise RuntimeError(f"script exit {e.code}")
    finally:
        sys.argv = old


def errclasses(e):
    return [c.__name__ for c in type(e).__mro__ if c.__name__ not in ("object", "BaseException")] if e else []


# ------------------------------------------------------------------ containers
def kind_of(x):
    import dask.array as da
    try:
        import xarray as xr
    except ImportError:
        xr = None
    if x is None:
        return "none"
    if xr is not None and isinstance(x, xr.DataArray):
        return "xarray-dask" if x.chunks is not None else "xarray"
    if isinstance(x, da.Array):
        return "dask"
    if isinstance(x, np.ma.MaskedArray):
        return "masked"
    if isinstance(x, np.ndarray):
        return "numpy"
    if isinstance(x, (bool, np.bool_)):
        return "bool"
    if isinstance(x, (int, float, np.number)):
        return "scalar"
    return type(x).__name__


def _same_result(a, b):
    """A chunked result must not depend on the schedule, nor on having been computed before."""
    a, b = (getattr(v, "values", v) for v in (a, b))
    same = np.shape(a) == np.shape(b) and np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b))
    if not same or not np.array_equal(np.ma.filled(np.ma.asarray(a), 0), np.ma.filled(np.ma.asarray(b), 0), equal_nan=True):
        raise RuntimeError("the chunked result depends on the schedule")


def observe(x):
    """Project any numeric result to shape, kind, dtype, values (row major) and mask."""
    import dask
    kind = kind_of(x)
    if kind in ("dask", "xarray-dask"):
        lazy = x
        x = dask.compute(lazy, scheduler="synchronous")[0]
        _same_result(x, dask.compute(lazy, scheduler="threads", num_workers=4)[0])
    if kind.startswith("xarray"):
        x = x.values
    mask = None
    if isinstance(x, np.ma.MaskedArray):
        mask = np.ma.getmaskarray(x).ravel().tolist()
        arr = np.asarray(x.data)
        if kind == "dask":
            kind = "dask-masked"
    else:
        arr = np.asarray(x)
    vals = arr.astype(np.float64, copy=False).ravel() if arr.dtype.kind in "fiub" else None
    if vals is None:
        return {"kind": kind, "dtype": str(arr.dtype), "shape": list(arr.shape), "vals": [], "mask": [], "odd": True}
    return {"kind": kind, "dtype": str(arr.dtype), "shape": list(arr.shape), "vals": DL(vals),
            "mask": mask if mask is not None else [False] * vals.size, "odd": False}


NOTHING = {"kind": "error", "dtype": "", "shape": [], "vals": [], "mask": [], "odd": True}


def observed_call(fn, *a, **k):
    """Call and observe; chunked results are computed inside the guard, so lazy errors count too."""
    def go():
        return observe(fn(*a, **k))
    ok, v, err, exc = attempt(go)
    r = dict(v) if ok else dict(NOTHING)
    r.update(ok=ok, err=err, errs=errclasses(exc), msg=str(exc)[:300] if exc else "")
    return r


def container(values, kind, dtype="f8", shape=None, chunk=0, mask=None):
    """Build an input container holding the values (row major)."""
    arr = np.array(values, dtype=dtype)
    if shape is not None:
        arr = arr.reshape(shape)
    if kind == "scalar":
        return arr.ravel()[0].item() if dtype == "f8" else arr.ravel()[0]
    if kind == "npscalar":
        return arr.ravel()[0]
    if kind == "list":
        return arr.tolist()
    if kind == "numpy":
        return arr
    if kind == "fortran":
        return np.asfortranarray(arr)
    if kind == "strided":
        big = np.full([2 * s for s in arr.shape], 77, dtype=arr.dtype)
        sl = tuple(slice(None, None, 2) for _ in arr.shape)
        big[sl] = arr
        return big[sl]
    if kind == "swapped":      # in the byte order of another machine, as read from some files
        return arr.astype(arr.dtype.newbyteorder())
    if kind == "readonly":
        arr.flags.writeable = False
        return arr
    if kind == "masked":
        return np.ma.array(arr, mask=np.zeros(arr.shape, bool) if mask is None
                           else np.array(mask, bool).reshape(arr.shape))
    import dask.array as da
    ch = tuple(max(1, min(chunk, s)) if s else 1 for s in arr.shape) if chunk else (arr.shape or ())
    if kind == "dask":
        return da.from_array(arr, chunks=ch if chunk else -1)
    if kind == "dask-masked":
        m = np.ma.array(arr, mask=np.zeros(arr.shape, bool) if mask is None
                        else np.array(mask, bool).reshape(arr.shape))
        return da.from_array(m, chunks=ch if chunk else -1, asarray=False)
    import xarray as xr
    dims = ["t", "z", "y", "x"][-arr.ndim:] if arr.ndim else []
    if kind == "xarray":
        return xr.DataArray(arr, dims=dims)
    if kind == "xarray-dask":
        return xr.DataArray(da.from_array(arr, chunks=ch if chunk else -1), dims=dims)
    raise ValueError(kind)


# ------------------------------------------------------------------- fixtures
def write_config(path, **options):
    import yaml
    pathlib.Path(path).write_text(yaml.dump(options))
    return str(path)


def write_rsr(path, bands, platform_name=None, sensor=None, description="desc", attrs=None, band_names=None,
              scale=1e-6):
    """An RSR file in the internal format. bands: name -> det -> dict(wavelength, response, central_wavelength)."""
    import h5py
    with h5py.File(path, "w") as h:
        h.attrs["band_names"] = list(band_names if band_names is not None else bands)
        h.attrs["description"] = description
        if platform_name is not None:
            h.attrs["platform_name"] = platform_name
        if sensor is not None:
            h.attrs["sensor"] = sensor
        for k, v in (attrs or {}).items():
            h.attrs[k] = v
        for b, dets in bands.items():
            g = h.create_group(b)
            g.attrs["number_of_detectors"] = len(dets)
            for d, v in dets.items():
                dg = g.create_group(d)
                dg.attrs["central_wavelength"] = v["central_wavelength"]
                w = dg.create_dataset("wavelength", data=np.asarray(v["wavelength"]) / (scale * 1e6))
                w.attrs["scale"] = scale
                w.attrs["unit"] = "m"
                dg.create_dataset("response", data=np.asarray(v["response"]))


# ------------------------------------------------------------------ large arrays
def tiles(rng, n, limit=300000):
    """How many copies of n values make an array of a size met in practice."""
    return rng.choice([s for s in (6000, 70000, 300000) if s <= limit]) // n + 1


def tiled(rng, values, dtype, k, kind, rows):
    """The values k times over, in an ordinary or chunked array; rows: one copy per row."""
    arr = np.tile(np.array(values, dtype=dtype), k)
    if rows:
        arr = arr.reshape(k, -1)
    if kind == "dask":
        import dask.array as da
        return da.from_array(arr, chunks=rng.choice([4096, 50001, -1]) if arr.ndim == 1 else (rng.choice([1000, 30001, -1]), rng.choice([1, -1])))
    return arr


def worst_tile(x, k):
    """Of the k copies of the result the one furthest from the first."""
    if hasattr(x, "compute"):
        x = x.compute()
    a = np.ma.filled(np.ma.asarray(x).astype("f8"), np.nan)
    if a.size % k:
        return []
    a = a.reshape(k, -1)
    with np.errstate(all="ignore"):
        d = np.abs(a - a[0])
    d[(a == a[0]) | (np.isnan(a) & np.isnan(a[0]))] = 0
    d[np.isnan(d)] = np.inf
    return DL(a[int(d.max(axis=1).argmax())])
