"""What the demonstrations share: data files, a fake server, configuration. Works in the current (scratch) directory."""
import contextlib
import gzip
import io
import os
import pathlib
import tarfile
import warnings

import numpy as np

warnings.simplefilter("ignore")
W = pathlib.Path.cwd()


def config(**opts):
    import yaml
    f = W / "pyspectral.yaml"
    opts = {"rsr_dir": str(W / "rsr"), "rayleigh_dir": str(W / "ray"), "tb2rad_dir": str(W / "tb"), "download_from_internet": False, **opts}
    for k in ("rsr_dir", "rayleigh_dir", "tb2rad_dir"):
        os.makedirs(opts[k], exist_ok=True)
    f.write_text(yaml.dump(opts))
    os.environ["PSP_CONFIG_FILE"] = str(f)
    return f


def current(version=None, where=None):
    from pyspectral import utils
    d = pathlib.Path(where or W / "rsr")
    d.mkdir(exist_ok=True, parents=True)
    (d / utils.RSR_DATA_VERSION_FILENAME).write_text(version if version is not None else utils.RSR_DATA_VERSION)


def curve(center, width=.3, n=31):
    x = np.linspace(center - width, center + width, n)
    y = np.clip(1 - ((x - center) / width) ** 2, 0, 1)
    return x, y


def rsr_file(platform, instrument, bands, where=None, sensor=None, mark=True):
    """bands: name -> {det: (wavelength um, response, central)}"""
    import h5py
    d = pathlib.Path(where or W / "rsr")
    d.mkdir(exist_ok=True, parents=True)
    if mark:
        current(where=d)
    f = d / f"rsr_{instrument}_{platform}.h5"
    with h5py.File(f, "w") as h:
        h.attrs["band_names"] = list(bands)
        h.attrs["description"] = "test"
        h.attrs["platform_name"] = platform
        h.attrs["sensor"] = sensor or instrument
        for b, dets in bands.items():
            g = h.create_group(b)
            g.attrs["number_of_detectors"] = len(dets)
            for det, (x, y, c) in dets.items():
                dg = g.create_group(det)
                dg.attrs["central_wavelength"] = c
                w = dg.create_dataset("wavelength", data=np.asarray(x, "f8"))
                w.attrs["scale"] = 1e-6
                dg.create_dataset("response", data=np.asarray(y, "f8"))
    return f


def tgz(members):
    buf = io.BytesIO()
    with tarfile.open(mode="w", fileobj=buf) as tar:
        for m in members:
            if isinstance(m, tuple):
                i = tarfile.TarInfo(m[0])
                i.size = len(m[1])
                tar.addfile(i, io.BytesIO(m[1]))
            else:
                tar.addfile(m)
    return gzip.compress(buf.getvalue(), mtime=0)


@contextlib.contextmanager
def server(answer):
    """answer(url) -> (status, body); yields the list of requested addresses."""
    import requests
    from urllib3.response import HTTPResponse
    log = []
    orig = requests.adapters.HTTPAdapter.send

    def send(self, request, stream=False, **kw):
        log.append(request.url)
        status, body = answer(request.url)
        raw = HTTPResponse(body=io.BytesIO(body), headers={"content-length": str(len(body))}, status=status,
                           preload_content=False, decode_content=False)
        return self.build_response(request, raw)
    requests.adapters.HTTPAdapter.send = send
    try:
        yield log
    finally:
        requests.adapters.HTTPAdapter.send = orig
