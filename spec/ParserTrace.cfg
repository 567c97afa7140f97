INIT TInit
NEXT TNext
VIEW TView
CONSTANTS
  JobOf <- TJobOf
  Ctx <- TCtx
  Answers <- TAnswers
INVARIANTS Consulted FixUsed SameResult
CHECK_DEADLOCK FALSE
