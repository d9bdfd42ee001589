LEVEL = "model_checking"
ASSUMPTIONS = ["the alias tables of the specification (spec/data/bandnames.json) are the catalogue users rely on; new aliases are not covered until added there",
               "wavelengths are dyadic so that the strict comparisons are exact"]


def run(ctx):
    ctx.model_check("MCBandLookup")
    cases = ctx.generate("GenBandLookup")
    ev = ctx.record("rec_c06.py", cases=cases * (4 if ctx.thorough else 1), shards=8)
    ctx.validate("TraceC06", ev)
