LEVEL = "model_checking"
ASSUMPTIONS = ["the raw formats are those the readers document in their code: the original agency files are not available here",
               "workbooks in the old Excel format are read through a stand-in for the xlrd library",
               "samples of negligible response (0.2 percent or less) may be left out by the readers that cut them",
               "the columns of the two MERSI-1 files of FY-3B are those that their names list; the TIRS wavelengths are in nanometres, as the reader takes them"]


def run(ctx):
    ctx.model_check("MCRawReaders")
    if ctx.thorough:
        ctx.must_fail("MCRawReaders", "MCRawReadersNoReversal.cfg", "Inv")
        ctx.must_fail("MCRawReaders", "MCRawReadersHalfReversed.cfg", "Inv")
    cases = ctx.generate("GenRawReaders")
    if ctx.thorough:
        cases = cases * 4
    ev = ctx.record("rec_c20.py", cases=cases, shards=8)
    ctx.validate("TraceC20", ev)
