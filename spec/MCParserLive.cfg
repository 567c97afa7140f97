SPECIFICATION MCSpec
CONSTANTS
  JobOf <- MCJobOf
  Ctx <- MCCtx
  Answers <- MCAnswers
INVARIANTS Inv10
PROPERTY Terminates
