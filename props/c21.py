import random

LEVEL = "model_checking"
ASSUMPTIONS = ["a plot is what matplotlib's axes hold when the figure is saved: lines, labels, title, limits, legend",
               "requests for bands that a platform does not have, and responses exactly at a threshold, are not specified"]


def run(ctx):
    ctx.model_check("MCCliTools")
    if ctx.thorough:
        ctx.must_fail("MCCliTools", "MCCliToolsStale.cfg", "Right")
    cases = ctx.generate("GenCliTools")
    small = [c for c in cases if c["tool"] != "composite"]
    comp = [c for c in cases if c["tool"] == "composite"]
    random.Random(ctx.seed).shuffle(comp)
    cases = small + comp[:700] if not ctx.thorough else small * 5 + comp[:8000]
    ev = ctx.record("rec_c21.py", cases=cases, shards=8, timeout=850)
    ctx.validate("TraceC21", ev)
