"""The tools that print and plot responses: find_wavelengths_for_satpy, plot_rsr and composite_rsr_plot."""
import io
import os
import re
import shutil
import sys

os.environ["MPLBACKEND"] = "Agg"
import numpy as np

from common import D, DL, SCRATCH, attempt, run, run_script, write_config, write_rsr

CENTRES = [.55, .6, .64, .66, .8, .86, .87, 3.7, 3.9, 10.8, 11., 12., 12.1]


def main(rec):
    import logging

    import matplotlib.figure
    import matplotlib.pyplot as plt
    rng = rec.rng
    figs = []
    centres = {}
    real = matplotlib.figure.Figure.savefig

    def savefig(self, fname, *a, **k):
        """Take down what the figure shows, and save it."""
        ax = self.axes[0] if self.axes else None
        shown = {"title": "", "xlim": [], "ylim": [], "lines": [], "legend": []}
        if ax:
            shown.update(title=ax.get_title(), xlim=DL(ax.get_xlim()), ylim=DL(ax.get_ylim()),
                         legend=[t.get_text() for t in ax.get_legend().get_texts()] if ax.get_legend() else [])
            for ln in ax.get_lines():
                x, y = (np.ma.masked_invalid(np.ma.asarray(v, dtype=float)) for v in (ln.get_xdata(orig=True), ln.get_ydata(orig=True)))
                keep = ~(np.ma.getmaskarray(x) | np.ma.getmaskarray(y))
                shown["lines"].append({"label": str(ln.get_label()), "color": str(ln.get_color()), "x": DL(np.ma.getdata(x)[keep]), "y": DL(np.ma.getdata(y)[keep])})
        figs.append(shown)
        k.pop("dpi", None)
        return real(self, fname, *a, dpi=20, **k)

    matplotlib.figure.Figure.savefig = savefig

    def band(name, nd):
        # bands of the same name often lie together
        c = centres.setdefault(name, rng.choice(CENTRES)) if rng.random() < .8 else rng.choice(CENTRES)
        cw = round(c + rng.uniform(-.02, .02), 4)
        dets = []
        for k in range(nd):
            n = rng.randrange(4, 9)
            half = rng.uniform(.01, .2)
            x = sorted({round(cw - half + 2 * half * rng.random(), 5) for _ in range(n)})
            top = rng.randrange(len(x))
            y = [round(rng.choice([.004, .012, .1, .2, .25, .4, .7, rng.random()]) + 1e-4 * rng.random(), 6) for _ in x]
            y[top] = 1.
            dets.append({"name": f"det-{k + 1}", "x": x, "y": y})
        return {"name": name, "cw": cw, "dets": dets}

    def solar(case, base):
        from pyspectral.solar import SolarIrradianceSpectrum
        base.mkdir()
        wl = sorted(rng.sample([round(.2 + .001 * i, 3) for i in range(4000)], case["n"]))
        irr = [round(rng.uniform(1, 2000), 3) for _ in wl]
        (base / "s.dat").write_text("".join(f"{x!r} {y!r}\n" for x, y in zip(wl, irr)))
        kw = {} if case["space"] == "default" else {"wavespace": case["space"]}
        opt = {} if case["color"] == "default" else {"color": case["color"]}
        plt.close("all")
        before = dict(plt.rcParams)

        def go():
            o = SolarIrradianceSpectrum(filename=str(base / "s.dat"), **kw)
            if case["twice"]:
                o.plot(str(base / "other.png"), **opt)
                (base / "other.png").unlink()
                plt.close("all")
            figs.clear()
            o.plot(str(base / "out.png"), **opt)
        ok, _, err, exc = attempt(go)
        kept = dict(plt.rcParams) == before
        plt.rcParams.update(before)
        files = sorted(f.name for f in base.iterdir() if f.name != "s.dat")
        rec.emit("c21", tool="solar", a={"out": "out.png"}, space=case["space"], color=case["color"], wl=DL(wl), irr=DL(irr), ok=ok, err=repr(exc)[:300],
                 kept=kept, files=files, figs=[1 for _ in figs], fig=figs[0] if figs else {"lines": []})
        shutil.rmtree(base)

    for case in rec.cases():
        rec.new_history()
        base = SCRATCH / f"w{rec.h}"
        if case["tool"] == "solar":
            solar(case, base)
            continue
        cat = case["cat"]
        (base / "rsr").mkdir(parents=True)
        (base / "cwd").mkdir()
        centres.clear()
        sats = [{"p": s["p"], "s": s["s"], "bands": [band(b, s["nd"]) for b in s["bands"]]} for s in cat]
        store = list(sats)
        a = {"title": "Relative Spectral Responses", "xlim": [], "ylim": [], "band": "", "out": ""}
        if case["tool"] != "composite":
            sat = sats[case["sat"] - 1]
            store = [sat]
            b = rng.choice(sat["bands"])
            a.update(p=sat["p"], s=sat["s"])
            argv = [sat["p"], sat["s"]]
        if case["tool"] == "find":
            script = "find_wavelengths_for_satpy.py"
            a.update(thr="0.15" if case["thr"] == "default" else case["thr"], det="det-1" if case["det"] == "default" else b["dets"][-1]["name"])
            a["target"] = ""
            if case["one"] != "all":
                known = case["aliases"][case["sat"] - 1]
                if case["one"] == "alias":
                    b = rng.choice([z for z in sat["bands"] if known[z["name"]]] or [b])
                a["target"] = b["name"]
                a["band"] = rng.choice(known[b["name"]] or [b["name"]]) if case["one"] == "alias" else b["name"]
                argv += [rng.choice(["-b", "--bandname"]), a["band"]]
            if case["thr"] != "default":
                argv += [rng.choice(["-r", "--minimum_response"]), case["thr"]]
            if case["det"] != "default":
                argv += [rng.choice(["-d", "--detector"]), a["det"]]
        elif case["tool"] == "plot":
            script = "plot_rsr.py"
            a["min"] = "0.01" if case["min"] == "default" else case["min"]
            if case["by"] == "band":
                a["band"] = b["name"]
                argv += [rng.choice(["-b", "--bandname"]), b["name"]]
            else:
                # within reach of this band, and of no other of the same sensor
                w = round(b["cw"] + rng.uniform(-.08, .08), 4)
                for o in sat["bands"]:
                    if o is not b and abs(o["cw"] - w) < .12:
                        o["cw"] = round(w + rng.choice([-1, 1]) * rng.uniform(.105, .24), 4)
                a["wavelength"] = D(w)
                argv += [rng.choice(["-w", "--wavelength"]), repr(w)]
            if case["min"] != "default":
                argv += [rng.choice(["-r", "--minimum_response"]), case["min"]]
        else:
            script = "composite_rsr_plot.py"
            chosen = [sats[i - 1] for i in case["plats"]]
            sensors = [s["s"] for s in chosen]
            sensors = {"theirs": sensors, "first": sensors[:1], "last": sensors[-1:], "reversed": sensors[::-1],
                       "all": [s["s"] for s in sats]}[case["sensors"]]
            gone = {"none": None, "first": chosen[0], "last": chosen[-1], "damaged": rng.choice(chosen)}[case["missing"]]
            store = [s for s in sats if s is not gone]
            a.update(platforms=[s["p"] for s in chosen], sensors=sensors, mode=case["mode"], exclude=[], nolegend=False, min="0.015")
            argv = ["-p", *a["platforms"], "-s", *sensors]
            if case["mode"] == "band":
                # a band that they all have
                name = rng.choice(chosen[0]["bands"])["name"]
                for s in sats:
                    if s["p"] in a["platforms"] and all(z["name"] != name for z in s["bands"]):
                        s["bands"].append(band(name, len(s["bands"][0]["dets"])))
                a["band"] = name
                argv += [rng.choice(["-b", "--bandname"]), name]
            elif case["mode"] == "wavelength":
                cws = [z["cw"] for s in chosen for z in s["bands"]]
                while True:
                    w = round(rng.choice(cws) + rng.uniform(-.3, .3), 3)
                    if all(abs(abs(c - w) - .25) > 1e-6 for c in cws):
                        break
                a["wavelength"] = D(w)
                argv += [rng.choice(["-w", "--wavelength"]), repr(w)]
            else:
                lo = round(rng.choice([.4, .5, .59, .7, 3., 10., 10.7, rng.choice(chosen[0]["bands"])["cw"] - .06]) + .01 * rng.random(), 4)
                hi = round(lo + rng.choice([.1, .4, 1.5]), 4)
                res = rng.choice([.005, .05, .02])
                if hi - lo > 1:
                    res = .05
                a.update(lo=D(lo), hi=D(hi), res=D(res))
                argv += [rng.choice(["-r", "--range"]), repr(lo), repr(hi)]
                if res != .005:
                    argv += ["--wavelength_resolution", repr(res)]
            o = case["opt"]
            if o == "exclude" and case["mode"] != "band":
                a["exclude"] = rng.sample(sorted({z["name"] for s in chosen for z in s["bands"]}), 2)
                argv += ["--exclude_bandnames", *a["exclude"]]
            elif o == "nolegend":
                a["nolegend"] = True
                argv += ["-no_platform_name_in_legend"]
            elif o == "out":
                a["out"] = "plot_out.png"
                argv += [rng.choice(["-o", "--filename"]), "plot_out.png"]
            elif o == "min":
                a["min"] = "0.3"
                argv += [rng.choice(["-t", "--minimum_response"]), "0.3"]
        lim = case.get("lim") or case.get("opt")
        if lim in ("inside", "zero", "limits", "limits0"):
            zero = lim in ("zero", "limits0")
            xlim = [0., rng.choice([1., 5., 14.])] if zero else [.3, 2.5]
            a["xlim"] = DL(xlim)
            argv += [rng.choice(["-x", "--xlimits"]), *map(repr, xlim)]
            if case["tool"] == "composite":
                ylim = [0., 1.2] if zero and rng.random() < .5 else [-.1, 1.5]
                a["ylim"] = DL(ylim)
                argv += [rng.choice(["-y", "--ylimits"]), *map(repr, ylim)]
        if case.get("title") or case.get("opt") == "out":
            a["title"] = "My own title"
            argv += ["--title", a["title"]]
        for s in store:
            write_rsr(base / "rsr" / f"rsr_{s['s'].replace('/', '')}_{s['p']}.h5",
                      {z["name"]: {d["name"]: {"wavelength": d["x"], "response": d["y"], "central_wavelength": z["cw"]} for d in z["dets"]}
                       for z in s["bands"]}, platform_name=s["p"], sensor=s["s"])
        if case.get("missing") == "damaged":
            (base / "rsr" / f"rsr_{gone['s'].replace('/', '')}_{gone['p']}.h5").write_bytes(bytes(rng.randrange(256) for _ in range(rng.choice([0, 100, 5000]))))
        write_config(base / "c.yaml", rsr_dir=str(base / "rsr"), rayleigh_dir=str(base / "ray"), download_from_internet=False)
        os.environ["PSP_CONFIG_FILE"] = str(base / "c.yaml")
        old = os.getcwd(), sys.stdout, sys.stderr, list(logging.getLogger().handlers)
        os.chdir(base / "cwd")
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        figs.clear()
        plt.close("all")
        try:
            ok, _, err, exc = attempt(run_script, script, argv)
            text = sys.stdout.getvalue()
        finally:
            os.chdir(old[0])
            sys.stdout, sys.stderr = old[1:3]
            logging.getLogger().handlers[:] = old[3]
            logging.getLogger("pyspectral").handlers[:] = []
            logging.disable(logging.CRITICAL)
        files = sorted(str(f.relative_to(base / "cwd")) for f in (base / "cwd").rglob("*") if f.is_file())
        printed = [{"name": m.group(1), "w": DL(float(v) for v in m.group(2).split(","))}
                   for m in re.finditer(r"name:\s*(\S[^\n]*?)\s+wavelength:\s*\[([^\]]*)\]", text)]
        num = [{"p": s["p"], "s": s["s"], "bands": [{"name": z["name"], "cw": D(z["cw"]), "dets": [{"name": d["name"], "x": DL(d["x"]), "y": DL(d["y"])}
                                                                                            for d in z["dets"]]} for z in s["bands"]]} for s in store]
        rec.emit("c21", tool=case["tool"], argv=[script, *argv], a=a, store=num, ok=ok, err=repr(exc)[:300], printed=printed, files=files,
                 figs=[1 for _ in figs], fig=figs[0] if figs else {"title": "", "xlim": [], "ylim": [], "lines": [], "legend": []})
        shutil.rmtree(base)


if __name__ == "__main__":
    run(main)
