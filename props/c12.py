import random
LEVEL = "model_checking"
ASSUMPTIONS = ["real arithmetic of module Dec (BigDecimal, 40 digits) is correct",
               "tables have evenly spaced secant and azimuth axes, as the released ones",
               "corrections (0-100) are compared at 1E-8 (double) and 0.02 (single) absolute",
               "azimuth differences between 0 and 180 degrees; a missing azimuth or red value is not specified"]


def run(ctx):
    ctx.model_check("MCRayleigh")
    cases = ctx.generate("GenRayleigh")
    r = random.Random(ctx.seed)
    if ctx.thorough:
        cases = cases * 3
        r.shuffle(cases)
    else:
        get = [c for c in cases if c["op"] == "get"]
        cases = [c for c in cases if c["op"] != "get"] + r.sample(get, 1500)
    ev = ctx.record("rec_c12.py", cases=cases, shards=8)
    ctx.validate("TraceC12", ev)
