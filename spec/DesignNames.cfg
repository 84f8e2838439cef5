SPECIFICATION DSpec
VIEW Seen
CONSTANTS
  Prop = "ALL"
  MaxCalls = 3
  MaxTexts = 2
  MaxEdits = 1
  MaxLines = 1
  Alphabet = {"x"}
  Ops = {"diff", "rev", "print", "parse"}
  Ctxs = {1}
  Fmts <- FullFmts
  Opts <- OneOpt
  Apis = {"s"}
  Names <- SomeNames
INVARIANTS LawTruth LawLeast LawApplies LawUndoes LawTwice LawPrints LawSound LawMerge
