INIT TInit
NEXT TNext
VIEW TView
CONSTANTS
  JobOf <- TJobOf
  Ctx <- TCtx
  Answers <- TAnswers
INVARIANT Consulted
CHECK_DEADLOCK FALSE
