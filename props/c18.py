LEVEL = "model_checking"
ASSUMPTIONS = ["real arithmetic of module Dec (BigDecimal, 40 digits) is correct",
               "centroid and range are decided on monotonic abscissae and non-negative responses with a positive integral",
               "energy bounds are decided on responses whose cumulative percentages are exact in binary arithmetic"]


def run(ctx):
    ctx.model_check("MCCurves")
    t = ctx.thorough
    cases = ctx.generate("GenCurves", "GenCurvesSmall4.cfg" if t else "GenCurvesSmall.cfg")
    cases += ctx.generate("GenCurves", "GenCurvesRandom.cfg", sample=12000 if t else 1500)
    ev = ctx.record("rec_c18.py", cases=cases, shards=8)
    ctx.validate("TraceC18", ev)
