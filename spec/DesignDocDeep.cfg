SPECIFICATION DSpec
VIEW Seen
CONSTANTS
  Prop = "ALL"
  MaxCalls = 4
  MaxTexts = 2
  MaxEdits = 1
  MaxLines = 2
  Alphabet = {"x", ""}
  Ops = {"diff", "rev", "print", "doc", "parse"}
  Ctxs = {0, 1}
  Fmts <- FullFmts
  Opts <- OneOpt
  Apis = {"s"}
  Names <- OneName
INVARIANTS LawTruth LawLeast LawApplies LawUndoes LawTwice LawPrints LawSound LawMerge
