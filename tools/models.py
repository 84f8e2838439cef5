"""Models checked completely by TLC, per property: the contract's laws (Design) and the
algorithms of the code, step by step, against the contract (Differ, Applier, Reader, Merger).
No verdict about the code comes from them: they establish that what the recorded calls are
judged by is consistent, sufficient for the stated guarantees, and met by the algorithms."""

D, A, R, M, G = "Design.tla", "ApplierMC.tla", "ReaderMC.tla", "MergerMC.tla", "DifferMC.tla"


def m(spec, cfg, what, **kw):
    return dict(spec=spec, cfg=cfg + ".cfg", what=what, **kw)


def deep(spec, cfg, what, **kw):
    return m(spec, cfg, what, tier="thorough", timeout=3 * 3600, heap="8g", workers=3, **kw)


LAWS = "every answer the contract allows keeps the laws; some answer is always allowed: "
PATCH = [m(D, "DesignPatch", LAWS + "diff, reverse, apply"),
         deep(D, "DesignPatchDeep", LAWS + "diff, reverse, apply, three calls")]
DOC = [m(D, "DesignDoc", LAWS + "diff, print, damage, parse"),
       deep(D, "DesignDocDeep", LAWS + "diff, reverse, print, damage, parse")]
MERGE = [m(D, "DesignMerge", LAWS + "merge"), deep(D, "DesignMergeDeep", LAWS + "merge, larger texts")]
TWIN = [m(D, "DesignTwin", LAWS + "equal calls through both interfaces"),
        deep(D, "DesignTwinDeep", LAWS + "equal calls through both interfaces, with apply")]
COLOUR = [m(D, "DesignColour", LAWS + "printing with all option combinations")]
PRINT = "printing piece by piece into any writer: in order, all of it or the writer's failure: "
PRINTER = [m("PrinterMC.tla", "PrinterMC", PRINT + "hunks of 1 line, all options, names, headings, 8 rooms"),
           deep("PrinterMC.tla", "PrinterDeep", PRINT + "hunks up to 2 lines")]
WRITE = [m(D, "DesignWrite", LAWS + "print, and print into a writer")]
NAMES = [m(D, "DesignNames", LAWS + "file names through printing and parsing")]
HIST = [m(D, "DesignHist", LAWS + "histories over all patch calls"),
        deep(D, "DesignHistDeep", LAWS + "histories over all patch calls, longer")]

SEARCH = "search, compaction and hunks: in bounds, terminating, least, truthful, right context: "
DIFFER = [m(G, "DifferMC", SEARCH + "all pairs up to 4 lines of 2"),
          deep(G, "DifferDeep", SEARCH + "all pairs up to 6 lines of 2"),
          deep(G, "DifferXYZ", SEARCH + "all pairs up to 4 lines of 3")]
PLACE = "position search: nearest place or the first hunk without one, each place once, terminating: "
APPLIER = [m(A, "ApplierMC", PLACE + "one hunk"), m(A, "ApplierTwo", PLACE + "two hunks"),
           deep(A, "ApplierDeep", PLACE + "one hunk, larger texts, no final newline")]
READ = "the reader agrees with the format, and prints and reads again: "
BODY = [m(R, "ReaderBody", READ + "bodies up to 5 lines"), deep(R, "ReaderBodyDeep", READ + "bodies up to 6 lines")]
ORDER = [m(R, "ReaderOrder", READ + "orders of hunks"), deep(R, "ReaderOrderDeep", READ + "orders of hunks, longer")]
HEAD = [m(R, "ReaderHead", READ + "hunk headers"), deep(R, "ReaderHeadDeep", READ + "hunk headers, longer")]
RNAMES = [m(R, "ReaderNames", READ + "names"), deep(R, "ReaderNamesDeep", READ + "names, longer")]
WALK = "walk over two edit scripts: no assertion fails, explained, mirrored, rendered right: "
MERGER = [m(M, "MergerMC", WALK + "texts up to 3/2 lines of 2"),
          deep(M, "MergerDeep", WALK + "texts up to 4/3 lines of 2"),
          deep(M, "MergerXYZ", WALK + "texts up to 3/2 lines of 3")]

MODELS = {
    "P01": PATCH + DIFFER, "P02": PATCH, "P03": DIFFER + PATCH, "P04": DIFFER, "P05": DIFFER,
    "P06": DOC + BODY, "P07": DOC + PRINTER, "P08": BODY + HEAD, "P09": BODY + ORDER + HEAD,
    "P10": APPLIER + PATCH, "P11": APPLIER,
    "P12": MERGE + MERGER, "P13": MERGER, "P14": MERGER + MERGE, "P15": MERGER,
    "P16": TWIN, "P17": DIFFER + APPLIER + RNAMES + MERGER, "P18": TWIN, "P19": COLOUR + PRINTER,
    "P20": NAMES + RNAMES, "P21": HIST + PATCH,
    "P22": PRINTER + WRITE,
}
