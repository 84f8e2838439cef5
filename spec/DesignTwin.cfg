SPECIFICATION DSpec
VIEW Seen
CONSTANTS
  Prop = "ALL"
  MaxCalls = 2
  MaxTexts = 2
  MaxEdits = 1
  MaxLines = 1
  Alphabet = {"x"}
  Ops = {"diff", "merge"}
  Ctxs = {0}
  Fmts <- OneFmt
  Opts <- OneOpt
  Apis = {"s", "b"}
  Names <- OneName
INVARIANTS LawTruth LawLeast LawApplies LawUndoes LawTwice LawPrints LawSound LawMerge
