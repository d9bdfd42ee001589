LEVEL = "model_checking"
ASSUMPTIONS = ["the user data directory is resolved by platformdirs' Linux rules (HOME, XDG_DATA_HOME)",
               "directory settings are given as strings (no null values)"]


def run(ctx):
    ctx.model_check("MCConfig")
    if ctx.thorough:
        ctx.must_fail("MCConfig", "MCConfigMemory.cfg", "Current")
    cases = ctx.generate("GenConfig", simulate=6000 if ctx.thorough else 1200, depth=18)
    ev = ctx.record("rec_c15.py", cases=cases, shards=8)
    ctx.validate("TraceC15", ev)
