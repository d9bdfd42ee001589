LEVEL = "model_checking"
ASSUMPTIONS = ["the network is observed at the HTTP transport of the requests library",
               "temporary files are looked at after the exception that left a helper has been handled and released",
               "nested helpers use different directories"]


def run(ctx):
    ctx.model_check("MCTestHelpers")
    if ctx.thorough:
        ctx.must_fail("MCTestHelpers", "MCTestHelpersEarly.cfg", "Consistent")
    cases = ctx.generate("GenTestHelpers", simulate=4000 if ctx.thorough else 700, depth=14)
    ev = ctx.record("rec_c16.py", cases=cases, shards=8)
    ctx.validate("TraceC16", ev)
