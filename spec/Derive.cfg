INIT DInit
NEXT DNext
INVARIANTS FirstSound FollowSound FirstWitnessed FollowWitnessed Sentences
CHECK_DEADLOCK FALSE
