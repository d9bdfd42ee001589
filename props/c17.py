LEVEL = "model_checking"
ASSUMPTIONS = ["the console is the standard error stream of the process; the application has not put handlers of its own on the root logger"]


def run(ctx):
    ctx.model_check("MCLogging")
    if ctx.thorough:
        ctx.must_fail("MCLogging", "MCLoggingKeepsFlag.cfg", "Refines")
    cases = ctx.generate("GenLogging", "GenLoggingAll.cfg", sample=None if ctx.thorough else 1500)
    cases += ctx.generate("GenLogging", "GenLoggingSim.cfg", simulate=5000 if ctx.thorough else 900, depth=16)
    ev = ctx.record("rec_c17.py", cases=cases, shards=8)
    ctx.validate("TraceC17", ev)
