"""Downloads with faults and kills at every step."""
import gzip
import io
import os
import pathlib
import random
import shutil
import tarfile
import tempfile

import numpy as np
import requests

from common import SCRATCH, run, write_config
from fakenet import FakeNet, in_child, make_tar
from fixtures import rsr_file_bytes

TYPE = "rayleigh_only"


def gz(data, pad):
    """Compressed, with so many bytes of comment."""
    buf = io.BytesIO()
    with gzip.GzipFile("x" * (pad - 1) if pad else "", "wb", fileobj=buf, mtime=0, compresslevel=1) as f:
        f.write(data)
    return buf.getvalue()


def main(rec):
    from pyspectral import rayleigh, rsr_reader, utils
    V = utils.RSR_DATA_VERSION
    LV = utils.ATM_CORRECTION_LUT_VERSION[TYPE]["version"]
    rnd = random.Random(5)
    blob = bytes(rnd.randrange(256) for _ in range(3000))
    kinds = {
        "rsr": {"marker": "PYSPECTRAL_RSR_VERSION", "version": V,
                "files": {"rsr_modis_EOS-Aqua.h5": rsr_file_bytes(), "rsr_big_Sat.h5": b"Z" * 60000,
                          "rsr_rand_Sat.h5": blob}},
        "lut": {"marker": "PYSPECTRAL_ATM_CORR_LUT_RO", "version": LV,
                "files": {"rayleigh_lut_us-standard.h5": b"L" * 50000, "rayleigh_lut_tropical.h5": blob[:2000],
                          "rayleigh_lut_subarctic_winter.h5": b"W" * 9000}},
    }
    archives = {}
    for k, d in kinds.items():
        fl = list(d["files"].items())
        mk = (d["marker"], (d["version"] + "\n").encode())
        archives[k, "first"] = make_tar([mk] + fl)
        archives[k, "middle"] = make_tar(fl[:1] + [mk] + fl[1:])
        archives[k, "last"] = make_tar(fl + [mk])
        if k == "rsr":      # one byte more than a multiple of a megabyte
            huge = {"rsr_huge_Sat.h5": np.random.default_rng(5).bytes(1 << 20)}
            plain = gzip.decompress(make_tar(list(huge.items()) + fl[:1] + [mk] + fl[1:]))
            archives[k, "huge"] = gz(plain, 0)
            archives[k, "huge"] = gz(plain, (1 - len(archives[k, "huge"])) % (1 << 20))
            assert len(archives[k, "huge"]) == (1 << 21) + 1
        archives[k, "dotslash"] = make_tar([("./" + mk[0], mk[1])] + [("./" + n, b) for n, b in fl])

    def old_version(new):
        """Another content of the same size, or not."""
        return bytes(255 - c for c in new) if rec.rng.random() < .5 else b"old content"

    for case in rec.cases():
        sc = case["sc"]
        k = kinds[sc["kind"]]
        if sc["order"] == "huge":
            k = dict(k, files={**k["files"], **huge})
        rec.new_history()
        root = pathlib.Path(tempfile.mkdtemp(dir=SCRATCH))
        log = root / "urls.log"
        cfg = root / "c.yaml"
        write_config(cfg, rsr_dir=str(root / "d" / "rsr"), rayleigh_dir=str(root / "d" / "rayl"),
                     download_from_internet=True)
        os.environ["PSP_CONFIG_FILE"] = str(cfg)
        data = root / "d" / "rsr" if sc["kind"] == "rsr" else root / "d" / "rayl" / TYPE
        (root / "d" / "rsr").mkdir(parents=True)
        (root / "d" / "rayl").mkdir(parents=True)
        data.mkdir(exist_ok=True)
        if sc["kind"] == "lut" and sc["prior"] == "empty":
            data.rmdir()
        keepfile = root / "d" / "rsr" / "users_own.txt"
        keepfile.write_text("mine")
        if sc["prior"] in ("old", "junk"):
            (data / k["marker"]).write_text("v0.9.0\n" if sc["prior"] == "old" else "")
            for n in list(k["files"])[:2]:
                (data / n).write_bytes(old_version(k["files"][n]) if sc["prior"] == "old" else k["files"][n][:100])
            if sc["prior"] == "junk":
                (data / ("pyspectral_rsr_data.tgz" if sc["kind"] == "rsr"
                         else "pyspectral_rayleigh_correction_luts.tgz")).write_bytes(b"left over")
        elif sc["prior"] == "current":
            for n, b in k["files"].items():
                (data / n).write_bytes(b)
            (data / k["marker"]).write_text(k["version"] + "\n")
        rec.emit("c03", act="start", **sc)
        archive = archives[sc["kind"], sc["order"]]

        def call(entry):
            if sc["kind"] == "rsr":
                if entry == "check":
                    return rsr_reader.check_and_download()
                if entry == "construct":
                    return str(rsr_reader.RelativeSpectralResponse("EOS-Aqua", "modis").platform_name)
                if entry == "explicitdest":
                    return utils.download_rsr(dest_dir=str(data))
                return utils.download_rsr()
            if entry == "check":
                return rayleigh.check_and_download(aerosol_types=[TYPE])
            if entry == "construct":
                rayleigh.Rayleigh("Suomi-NPP", "viirs", aerosol_type=TYPE)
                return None
            return utils.download_luts(aerosol_types=[TYPE])

        def handler_for(f):
            t, kk = f["t"], f["k"]
            n = len(archive)

            def handler(url):
                if t == "connerr":
                    raise requests.exceptions.ConnectionError("refused")
                if t == "timeout":
                    raise requests.exceptions.ConnectTimeout("timeout")
                if t.startswith("http"):
                    code, _, what = t[4:].partition("-")
                    return {"status": int(code), "body": {"html": b"<html>error</html>", "none": b"", "archive": archive}[what]}
                if t == "htmlbody":
                    return {"body": b"<html>maintenance</html>" * 50}
                if t == "notatar":
                    return {"body": b"\x1f\x8b\x08\x00garbage" + bytes(2000)}
                if t == "emptybody":
                    return {"body": b""}
                if t == "plaintar":
                    return {"body": gzip.decompress(archive)}
                if t == "cut-inside":
                    with tarfile.open(fileobj=io.BytesIO(archive)) as tar:
                        m = [m for m in tar.getmembers() if m.size > 100][kk]
                    return {"body": gz(gzip.decompress(archive)[:m.offset_data + m.size // 2], 0)}
                if t == "body-error":
                    return {"body": archive, "fail_at": n * kk // 5, "how": "error"}
                if t == "body-timeout":
                    return {"body": archive, "fail_at": n * kk // 5, "how": "timeout"}
                if t == "body-kill":
                    return {"body": archive, "fail_at": n * kk // 5, "how": "kill"}
                if t == "short-declared":
                    return {"body": archive[:n * kk // 5], "declared": n}
                if t == "short":
                    return {"body": archive[:n * kk // 10 + kk], "length": False}
                if delivery == "pieces":
                    return {"body": archive, "length": False, "pieces": True}
                if delivery == "redirect" and "mirror" not in url:
                    return {"status": 302, "headers": {"location": "https://mirror.example.org/data/archive.tgz"}, "body": b"<html>moved</html>"}
                return {"body": archive}
            delivery = rec.rng.choice(["plain", "plain", "pieces", "redirect"])
            return handler

        def status():
            out = []
            for n, b in k["files"].items():
                p = data / n
                out.append("absent" if not p.is_file() else "new" if p.read_bytes() == b else "other")
            return out

        def looks_current():
            log.unlink(missing_ok=True)

            def refuse(url):
                raise requests.exceptions.ConnectionError("probe")

            def probe():
                with FakeNet(refuse, str(log)):
                    try:
                        call("check")
                    except requests.exceptions.ConnectionError:
                        pass
            before = {p.name for p in data.iterdir()} if data.exists() else set()
            in_child(probe)
            asked = log.exists()
            if sc["kind"] == "lut" and not before and data.exists():
                pass
            return not asked

        def attempt(f, entry):
            log.unlink(missing_ok=True)
            t, kk = f["t"], f["k"]
            fs, lim, lk = None, None, False
            if t.startswith("fs-"):
                fs = (str(root / "d"), kk, t[3:] if t == "fs-kill" else "error")
            if t.startswith("size-"):
                lim, lk = [256, 1200, len(archive) + 1, 5000, 20000, 55000][kk - 1], t == "size-kill"

            def go():
                with FakeNet(handler_for(f), str(log)):
                    return call(entry)
            r = in_child(go, size_limit=lim, size_kill=lk, fs=fs)
            return r

        for f in case["faults"]:
            r = attempt(f, sc["entry"])
            fired = log.exists()
            # an attempt that finds the directory current fetches nothing and cleans nothing up
            tar = fired and data.exists() and any(p.suffix == ".tgz" for p in data.iterdir())
            rec.emit("c03", act="attempt", fault=f["t"], k=f["k"], fired=fired, outcome=r["outcome"], err=r["err"],
                     msg=r["msg"], files=status(), looks_current=looks_current(), tarball=tar,
                     keep=keepfile.read_text() == "mine", sc=sc)
        retry = rec.rng.choice(["check", "construct", "explicit"]) if sc["entry"] != "explicit" else "explicit"
        r = attempt({"t": "none", "k": 0}, retry)
        tar = any(p.suffix == ".tgz" for p in data.iterdir())
        # a smart retry of a directory that is already current does not clean up a left-over archive
        if not log.exists():
            tar = False
        rec.emit("c03", act="attempt", fault="none", k=0, fired=False, outcome=r["outcome"], err=r["err"],
                 msg=r["msg"], files=status(), looks_current=looks_current(), tarball=tar,
                 keep=keepfile.read_text() == "mine", sc=sc)
        os.environ.pop("PSP_CONFIG_FILE", None)
        shutil.rmtree(root)


run(main)
