SPECIFICATION DSpec
VIEW Seen
CONSTANTS
  Prop = "ALL"
  MaxCalls = 3
  MaxTexts = 2
  MaxEdits = 1
  MaxLines = 1
  Alphabet = {"x", ""}
  Ops = {"diff", "print", "write"}
  Ctxs = {1}
  Fmts <- AllFmts
  Opts <- OneOpt
  Apis = {"s"}
  Names <- OneName
INVARIANTS LawTruth LawLeast LawApplies LawUndoes LawTwice LawPrints LawSound LawMerge
