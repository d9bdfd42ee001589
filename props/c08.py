LEVEL = "model_checking"
ASSUMPTIONS = ["curves are sampled at increasing wavelengths, as in all released files"]


def run(ctx):
    ctx.model_check("MCWaveSpace")
    cases = ctx.generate("GenWaveSpace", sample=6000 if ctx.thorough else 1200)
    ev = ctx.record("rec_c08.py", cases=cases, shards=8)
    ctx.validate("TraceC08", ev)
