import random
LEVEL = "model_checking"
ASSUMPTIONS = ["real arithmetic of module Dec (BigDecimal, 40 digits) is correct",
               "radiances are compared at 1E-9 (double) and 5E-5 (single) relative; a temperature within rounding of a table step may go to either neighbour",
               "resolutions that divide the table's first temperature; missing (NaN) temperatures are the subject of C11"]


def run(ctx):
    ctx.model_check("MCBandRadiance")
    allc = ctx.generate("GenBandRadiance")
    if not ctx.thorough:
        r = random.Random(ctx.seed)
        big = [c for c in allc if c["op"] == "lookup"]
        small = [c for c in allc if c["op"] != "lookup"]
        allc = small + r.sample(big, 2500)
        r.shuffle(allc)
    ev = ctx.record("rec_c10.py", cases=allc, shards=8)
    ctx.validate("TraceC10", ev)
