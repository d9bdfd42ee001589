LEVEL = "model_checking"
ASSUMPTIONS = ["real arithmetic of module Dec (BigDecimal, 40 digits) is correct",
               "double reflectances are compared with a relative error of 1E-9 of the radiances involved, single ones with 4E-6",
               "temperatures are drawn inside a table step (C10 decides the steps themselves)",
               "a derived solar flux is compared with the tabulated solar spectrum at 2 percent (C14 decides the integral)"]


def run(ctx):
    ctx.model_check("MCNirRefl")
    cases = ctx.generate("GenNirRefl", simulate=4000 if ctx.thorough else 700, depth=6)
    ev = ctx.record("rec_c11.py", cases=cases, shards=8)
    ctx.validate("TraceC11", ev)
