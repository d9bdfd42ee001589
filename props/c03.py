LEVEL = "fault_enumeration"
ASSUMPTIONS = ["one downloading process at a time (no concurrent downloaders of the same directory)",
               "a crash is the death of the process: data already written stay written (no power loss model)",
               "file system faults are injected at every write-type audit event and at file-size limits"]


def run(ctx):
    ctx.model_check("DataStore", "MCDataStore.cfg")
    if ctx.thorough:
        ctx.must_fail("DataStore", "MCDataStoreNaive.cfg", "Safe")
    cases = ctx.generate("GenFaults", "GenFaultsOne.cfg", sample=None if ctx.thorough else 1800)
    cases += ctx.generate("GenFaults", "GenFaultsTwo.cfg", simulate=2000 if ctx.thorough else 40, depth=4,
                          sample=8000 if ctx.thorough else 400)
    ev = ctx.record("rec_c03.py", cases=cases, shards=8)
    ctx.validate("TraceC03", ev)
