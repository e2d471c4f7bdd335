SPECIFICATION Spec
CONSTANTS
  Cfg <- CfgDef
  MaxRules = 2
  MaxInput = 3
  OmLists = 1
INVARIANTS TypeOK TokensCorrect TokensExact Spelling Ends Collapsed BestApplied Covered OutputIs FirstOnMatch NoRaiseIfIgnored RaisesRight AgreesWithReference
CHECK_DEADLOCK FALSE
