"""Archives with hostile and harmless members, unpacked by the real code as an unprivileged user."""
import os
import pathlib
import shutil
import stat
import tarfile
import tempfile

from common import SCRATCH, run, write_config
from fakenet import FakeNet, in_child, make_tar, snapshot

TYPE = "rural_aerosol"
NOBODY = 65534
KIND = {"file": tarfile.REGTYPE, "dir": tarfile.DIRTYPE, "sym": tarfile.SYMTYPE, "hard": tarfile.LNKTYPE,
        "dev": tarfile.CHRTYPE, "fifo": tarfile.FIFOTYPE}


def open_directory():
    """A directory for scratch files which an unprivileged user can reach."""
    for d in ("/tmp", "/var/tmp", "/dev/shm"):
        if os.path.isdir(d) and all(os.stat(p).st_mode & 0o001 for p in (d, os.path.dirname(d))):
            return d
    raise SystemExit("no directory an unprivileged user can reach")


def main(rec):
    import requests
    from pyspectral import rayleigh, rsr_reader, utils
    # everything the code under test could reach by an escaping path is scratch and the user is nobody
    base = pathlib.Path(tempfile.mkdtemp(prefix="c19_", dir=open_directory()))
    os.chmod(base, 0o755)
    try:
        for n, case in enumerate(rec.cases()):
            rec.new_history()
            kind = "rsr" if rec.rng.random() < 0.6 else "lut"
            root = base / f"r{n}"
            world = root / "world"
            dest = world / "dest"
            (world / "outdir").mkdir(parents=True)
            dest.mkdir()
            (world / "victim").write_text("victim")
            (world / "outdir" / "inner").write_text("inner")
            (root / "cfg").mkdir()
            cfg = root / "cfg" / "c.yaml"
            write_config(cfg, rsr_dir=str(dest), rayleigh_dir=str(world / "dest"), download_from_internet=True)
            data = dest if kind == "rsr" else dest / TYPE
            marker = "PYSPECTRAL_RSR_VERSION" if kind == "rsr" else \
                utils.ATM_CORRECTION_LUT_VERSION[TYPE]["filename"]
            version = utils.RSR_DATA_VERSION if kind == "rsr" else utils.ATM_CORRECTION_LUT_VERSION[TYPE]["version"]
            w = data.parent
            if kind == "lut":   # the world around the LUT directory
                data.mkdir()
                (w / "outdir").mkdir()
                (w / "victim").write_text("victim")
                (w / "outdir" / "inner").write_text("inner")
            if rec.rng.random() < 0.5:
                (data / marker).write_text("v0.0.1\n")
                (data / "rsr_a.h5").write_text("old")
            for dp, dn, fn in os.walk(world):
                for x in [dp] + [os.path.join(dp, f) for f in fn]:
                    os.chown(x, NOBODY, NOBODY)
            os.chmod(root, 0o755)
            members = []
            harmless = {}
            for i, m in enumerate(case["members"]):
                name = "/".join(m["name"]).replace("VERSION", marker)
                if m["abs"]:
                    name = str(w) + "/" + name
                tgt = "/".join(m["target"])
                if m["tabs"]:
                    tgt = str(w) + "/" + tgt
                elif m["t"] == "hard":
                    tgt = "/".join(m["target"])
                body = f"member {m['id']} {i}".encode() * 20 if m["t"] == "file" else b""
                members.append({"name": name, "type": KIND[m["t"]], "linkname": tgt, "data": body, "dev": (1, 3),
                                "mode": 0o755 if m["t"] == "dir" else 0o644})
                if m["t"] == "file" and not m["evil"]:
                    harmless[os.path.normpath(name)] = body
            # a later symlink (or hard link) of the same name may replace an earlier file: last one wins
            pos = rec.rng.randint(0, len(members))
            members.insert(pos, {"name": marker, "type": tarfile.REGTYPE, "data": (version + "\n").encode()})
            archive = make_tar(members)
            os.environ["PSP_CONFIG_FILE"] = str(cfg)
            log = root / "cfg" / "log"
            before = {k: v for k, v in snapshot(root).items() if not k.startswith("cfg")}

            def call():
                if kind == "rsr":
                    return utils.download_rsr()
                return utils.download_luts(aerosol_types=[TYPE])

            def go():
                with FakeNet(lambda url: {"body": archive}):
                    return call()
            r = in_child(go, uid=NOBODY)
            after = {k: v for k, v in snapshot(root).items() if not k.startswith("cfg")}
            rel = os.path.relpath(data, root)
            outside = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k)
                             and not (k + "/").startswith(rel + "/"))
            if (w / "victim").exists() and (w / "victim").stat().st_nlink > 1:
                outside.append("victim hard-linked")
            # anything inside that leads outside
            special = False
            for dp, dn, fn in os.walk(data):
                for x in dn + fn:
                    p = os.path.join(dp, x)
                    st = os.lstat(p)
                    if not (stat.S_ISREG(st.st_mode) or stat.S_ISDIR(st.st_mode) or stat.S_ISLNK(st.st_mode)):
                        special = True
                    if stat.S_ISLNK(st.st_mode):
                        t = os.path.realpath(p)
                        if not (t + "/").startswith(os.path.realpath(data) + "/"):
                            special = True
            ok = []
            for nm, b in harmless.items():
                p = data / nm
                try:
                    ok.append(p.is_file() and p.read_bytes() == b)
                except OSError:
                    ok.append(False)
            flag = root / "cfg" / "asked"

            def probe():
                def refuse(url):
                    flag.touch()
                    raise requests.exceptions.ConnectionError("probe")
                with FakeNet(refuse):
                    try:
                        if kind == "rsr":
                            rsr_reader.check_and_download()
                        else:
                            rayleigh.check_and_download(aerosol_types=[TYPE])
                    except requests.exceptions.ConnectionError:
                        pass
            in_child(probe)
            rec.emit("c19", members=[m["id"] for m in case["members"]], evil=[m["evil"] for m in case["members"]],
                     marker_pos=pos, kind=kind, outcome=r["outcome"], err=r["err"], msg=r["msg"],
                     outside=outside, harmless=ok, special=special, looks_current=not flag.exists())
            os.environ.pop("PSP_CONFIG_FILE", None)
            shutil.rmtree(root)
    finally:
        shutil.rmtree(base, ignore_errors=True)


run(main)
