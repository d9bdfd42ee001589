import random

LEVEL = "model_checking"
ASSUMPTIONS = ["h5py stores and returns what it is given",
               "conversion is checked for raw wavelengths in micrometres (the default scale)"]


def run(ctx):
    ctx.model_check("MCRsrFile")
    cases = ctx.generate("GenRsrFile")
    rest = [c for c in cases if c["op"] != "read"]
    cases = [c for c in cases if c["op"] == "read"]
    cases = (cases if ctx.thorough else random.Random(ctx.seed).sample(cases, 2400)) + rest * 2
    reps = 3 if ctx.thorough else 1
    ev = ctx.record("rec_c05.py", cases=cases * reps, shards=8)
    ctx.validate("TraceC05", ev)
