"""Reads of the configuration in a changing environment."""
import json
import os
import pathlib
import shutil

from common import SCRATCH, attempt, run


def flat(d, prefix=""):
    out = []
    for k, v in d.items():
        if isinstance(v, dict) and v:
            out += flat(v, f"{prefix}{k}.")
        else:
            out.append((f"{prefix}{k}", v if isinstance(v, str) else json.dumps(v)))
    return out


NAMES = {"f1": "f1.yaml", "f2": "f 2.yaml ", "f3": "f3#%20$HOME"}      # any name can name a file


def main(rec):
    import yaml
    from pyspectral.config import get_config
    from pyspectral.rsr_reader import RelativeSpectralResponse
    from pyspectral.utils import get_rayleigh_lut_dir
    base = RelativeSpectralResponse.__mro__[1]      # the part of the reader that needs no data files
    n = 0
    for case in rec.cases():
        rec.new_history()
        n += 1
        root = SCRATCH / f"cfg{rec.a.shard}_{n}"
        for sub in ("h1", "h2", "cwd", "adir"):
            (root / sub).mkdir(parents=True)
        os.chdir(root / "cwd")
        for h in ("h1", "h2"):      # a file the home shortcut would reach, were it ever taken for a file name
            (root / h / "tilde.yaml").write_text("download_from_internet: false\n")
        os.environ["HOME"] = str(root / "h1")
        for v in ("XDG_DATA_HOME", "PSP_CONFIG_FILE"):
            os.environ.pop(v, None)

        def tok(p):
            return str(p).replace(str(root), "$S")
        rec.emit("c15", act="start", home="$S/h1")
        last = None
        for op in case["ops"]:
            o = op["op"]
            if o == "write":
                body, content = {}, []
                for k in ("rsr_dir", "rayleigh_dir"):
                    v = op[k]
                    if v == "none":
                        continue
                    if v.startswith("~"):
                        body[k] = v
                        content.append([k, "~", v[1:]])
                    else:
                        body[k] = str(root / v) if v.startswith("abs") else "$HOME/d" if v == "dollar" else "rel/dir"
                        content.append([k, "", tok(body[k])])
                if op["tb2rad_dir"] != "none":
                    body["tb2rad_dir"] = op["tb2rad_dir"]
                if op["dl"] != "none":
                    body["download_from_internet"] = op["dl"] == "true"
                if op["extra"] != "none":
                    body["extra"] = {"scalar": 5, "nested": {"a": 1, "b": {"c": "x", "d": [1, 2]}}, "other": {"a": 2, "e": None},
                                     "list": [1, 2, 3], "emptymap": {}, "dollar": {"p": "$HOME/x", "q": "${HOME}", "r": "~/x", "s": "%(home)s"}}[op["extra"]]
                text = yaml.dump(body)
                if op["kind"] == "empty":
                    body, content, text = {}, [], ""
                elif op["kind"] == "comments":
                    text = "# " + text.replace("\n", "\n# ") + "\n"
                    body, content = {}, []
                content += [list(p) for p in flat({k: v for k, v in body.items() if k not in ("rsr_dir", "rayleigh_dir")})]
                fn = root / NAMES[op["f"]]
                fn.write_text(text)
                if op["sametime"]:
                    os.utime(fn, (1500000000, 1500000000))
                rec.emit("c15", act="write", f=op["f"], content=content)
            elif o == "remove":
                (root / NAMES[op["f"]]).unlink(missing_ok=True)
                rec.emit("c15", act="remove", f=op["f"])
            elif o == "env":
                v = op["v"]
                if v == "unset":
                    os.environ.pop("PSP_CONFIG_FILE", None)
                else:
                    os.environ["PSP_CONFIG_FILE"] = {"empty": "", "dir": str(root / "adir"), "tilde": "~/tilde.yaml"}.get(v, str(root / NAMES.get(v, v + ".yaml")))
                rec.emit("c15", act="env", v=v)
            elif o == "home":
                os.environ["HOME"] = str(root / op["v"])
                rec.emit("c15", act="home", v="$S/" + op["v"])
            elif o == "xdg":
                if op["v"] == "unset":
                    os.environ.pop("XDG_DATA_HOME", None)
                    rec.emit("c15", act="xdg", v="unset")
                else:
                    os.environ["XDG_DATA_HOME"] = str(root / op["v"])
                    rec.emit("c15", act="xdg", v="$S/" + op["v"])
            elif o == "rmdirs":
                for sub in ("h1/a", "h1/b", "h2/a", "h2/b", "abs1", "abs2", "cwd/rel", "h1/.local", "h2/.local", "x1", "x2"):
                    shutil.rmtree(root / sub, ignore_errors=True)
            elif o == "mutate":
                if last is not None:
                    def spoil(d):
                        for k in list(d):
                            if isinstance(d[k], dict):
                                spoil(d[k])
                            elif isinstance(d[k], list):
                                d[k].append("spoilt")
                            elif rec.rng.random() < .5:
                                d[k] = "spoilt"
                            else:
                                del d[k]
                        d["added"] = "spoilt"
                    spoil(last)
            elif o == "use":
                rok, r, _, _ = attempt(base)
                lok, d, _, _ = attempt(get_rayleigh_lut_dir, "marine_clean_aerosol")
                rec.emit("c15", act="use", rhas=base is not object, rok=rok, lok=lok, rsr_dir=tok(r.rsr_dir) if rok and base is not object else "", lut_dir=tok(d) if lok else "",
                         download=bool(r.do_download) if rok and base is not object else False)
            else:
                args = []
                if op["ex"] != "none":
                    p = {"emptyname": "", "dir": str(root / "adir"), "tilde": "~/tilde.yaml"}.get(op["ex"], str(root / NAMES.get(op["ex"], op["ex"] + ".yaml")))
                    if p == "":
                        op["as"] = "str"        # as a path this is the current directory
                    args = [p if op["as"] == "str" else pathlib.Path(p)]
                ok, r, err, exc = attempt(get_config, *args)
                if ok:
                    last = r
                    dirs = all(os.path.isdir(r.get(k, "/nonexistent")) for k in ("rsr_dir", "rayleigh_dir"))
                    got = [[k, tok(v)] for k, v in flat(r)]
                rec.emit("c15", act="read", ex=op["ex"], ok=ok, err=repr(exc)[:200], got=got if ok else [], dirs=dirs if ok else False)
        os.chdir(SCRATCH)
        shutil.rmtree(root)


if __name__ == "__main__":
    run(main)
