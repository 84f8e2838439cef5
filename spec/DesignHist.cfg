SPECIFICATION DSpec
VIEW Seen
CONSTANTS
  Prop = "ALL"
  MaxCalls = 4
  MaxTexts = 2
  MaxEdits = 1
  MaxLines = 1
  Alphabet = {"x"}
  Ops = {"diff", "rev", "apply", "print", "parse"}
  Ctxs = {1}
  Fmts <- OneFmt
  Opts <- OneOpt
  Apis = {"s"}
  Names <- OneName
INVARIANTS LawTruth LawLeast LawApplies LawUndoes LawTwice LawPrints LawSound LawMerge
