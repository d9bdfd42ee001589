LEVEL = "model_checking"
ASSUMPTIONS = ["the network is observed at the transport adapter of the requests library",
               "every call from every start pattern; random histories of 8 steps (edits and calls alternating)"]


def run(ctx):
    ctx.model_check("GenLutGate", "MCLutGate.cfg")
    cases = ctx.generate("GenLutGate", "GenLutGateExh.cfg", sample=None if ctx.thorough else 4000)
    cases += ctx.generate("GenLutGate", "GenLutGateSim.cfg", simulate=3000 if ctx.thorough else 150, depth=10,
                          sample=8000 if ctx.thorough else 250)
    ev = ctx.record("rec_c02.py", cases=cases, shards=8)
    ctx.validate("TraceC02", ev)
