INIT MCInit
NEXT MCNext
CONSTANTS
  JobOf <- MCJobOf
  Ctx <- MCCtx
  Answers <- MCAnswers
INVARIANTS BigStep Inv07 Inv08 Inv09 Inv10 Inv11 Inv12 Inv13 Inv14 Inv15 Inv16 Inv17 Inv18 EmitDone
