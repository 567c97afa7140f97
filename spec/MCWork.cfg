INIT WInit
NEXT WNext
CONSTANTS
  JobOf <- MCJobOf
  Ctx <- MCCtx
  Answers <- MCAnswers
INVARIANTS Proportional SizeBounded AsSearched
