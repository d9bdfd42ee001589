LEVEL = "model_checking"
ASSUMPTIONS = ["the archive is a gzipped tar; Python's tarfile reads its headers as the specification does",
               "unpacking runs as an unprivileged user in the harness, so an escape can only reach scratch files"]


def run(ctx):
    ctx.model_check("MCUnpack", "MCUnpack.cfg")
    if ctx.thorough:
        ctx.must_fail("MCUnpack", "MCUnpackNaive.cfg", "Contained")
    cases = ctx.generate("Unpack", "GenUnpack.cfg")
    cases += ctx.generate("Unpack", "GenUnpack3.cfg", sample=10000 if ctx.thorough else 700)
    ev = ctx.record("rec_c19.py", cases=cases, shards=8)
    ctx.validate("TraceC19", ev)
