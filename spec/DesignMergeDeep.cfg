SPECIFICATION DSpec
VIEW Seen
CONSTANTS
  Prop = "ALL"
  MaxCalls = 2
  MaxTexts = 3
  MaxEdits = 2
  MaxLines = 2
  Alphabet = {"x", "y"}
  Ops = {"merge"}
  Ctxs = {0}
  Fmts <- FullFmts
  Opts <- OneOpt
  Apis = {"s"}
  Names <- OneName
INVARIANTS LawTruth LawLeast LawApplies LawUndoes LawTwice LawPrints LawSound LawMerge
