SPECIFICATION DSpec
VIEW Seen
CONSTANTS
  Prop = "ALL"
  MaxCalls = 2
  MaxTexts = 2
  MaxEdits = 2
  MaxLines = 2
  Alphabet = {"x", "y"}
  Ops = {"diff", "rev", "apply"}
  Ctxs = {0, 1}
  Fmts <- FullFmts
  Opts <- TwoOpts
  Apis = {"s"}
  Names <- OneName
INVARIANTS LawTruth LawLeast LawApplies LawUndoes LawTwice LawPrints LawSound LawMerge
