LEVEL = "model_checking"
ASSUMPTIONS = ["real arithmetic of module Dec (BigDecimal, 40 digits) is correct",
               "double results are compared at 1E-10, single at 2E-4 relative"]


def run(ctx):
    ctx.model_check("MCPlanck")
    cases = ctx.generate("GenPlanck")
    ev = ctx.record("rec_c09.py", cases=cases, shards=8)
    ctx.validate("TraceC09", ev)
