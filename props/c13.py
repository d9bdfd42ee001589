LEVEL = "model_checking"
ASSUMPTIONS = ["real arithmetic of module Dec (BigDecimal, 40 digits) is correct",
               "floating point temperatures; results are compared at 1E-10 (double) and 2E-5 (single) relative",
               "a masked viewing angle over valid data is not specified"]


def run(ctx):
    ctx.model_check("MCIrCorrection")
    cases = ctx.generate("GenIrCorrection")
    if ctx.thorough:
        cases = cases * 5
    ev = ctx.record("rec_c13.py", cases=cases, shards=8)
    ctx.validate("TraceC13", ev)
