SPECIFICATION SSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Prop = "ALL"
  MaxCalls = 8
  MaxTexts = 4
  MaxEdits = 4
  MaxLines = 8
  Alphabet <- WhichAlphabet
  Ops = {"merge"}
  Ctxs = {0, 1, 2, 3}
  Fmts <- AllFmts
  Opts <- AllOpts
  Apis = {"s", "b", "l"}
  Names <- SomeNames
INVARIANTS LawTruth LawLeast LawApplies LawUndoes LawTwice LawPrints LawSound LawMerge
