INIT TInit
NEXT TNext
VIEW TView
CONSTANTS
  JobOf <- TJobOf
  Ctx <- TCtx
  Answers <- TAnswers
INVARIANT FixUsed
CHECK_DEADLOCK FALSE
