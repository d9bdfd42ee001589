"""A small valid RSR file, as bytes."""
import numpy as np

from common import SCRATCH, write_rsr


def rsr_file_bytes():
    p = SCRATCH / "tmpl.h5"
    x = np.linspace(0.6, 0.7, 11)
    write_rsr(p, {"1": {"det-1": {"wavelength": x, "response": np.sin(np.pi * (x - .6) / .1),
                                  "central_wavelength": 0.65}}}, "EOS-Aqua", "modis")
    b = p.read_bytes()
    p.unlink()
    return b
