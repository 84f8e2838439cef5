SPECIFICATION DSpec
VIEW Seen
CONSTANTS
  Prop = "ALL"
  MaxCalls = 2
  MaxTexts = 3
  MaxEdits = 1
  MaxLines = 1
  Alphabet = {"x", "y"}
  Ops = {"merge"}
  Ctxs = {0}
  Fmts <- FullFmts
  Opts <- OneOpt
  Apis = {"s"}
  Names <- OneName
INVARIANTS LawTruth LawLeast LawApplies LawUndoes LawTwice LawPrints LawSound LawMerge
