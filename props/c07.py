LEVEL = "model_checking"
ASSUMPTIONS = ["the platform catalogue of the specification (spec/data/instruments.json) is what users rely on; new platforms are not covered until added there"]


def run(ctx):
    ctx.model_check("MCInstrumentNames")
    cases = ctx.generate("MCInstrumentNames", "GenInstrumentNames.cfg")
    ev = ctx.record("rec_c07.py", cases=cases, shards=8)
    ctx.validate("TraceC07", ev)
