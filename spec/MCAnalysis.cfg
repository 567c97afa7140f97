SPECIFICATION MCSpec
CONSTANT Of <- MCOf
INVARIANTS FirstExact FollowExact TableExact Bounded FewRounds
PROPERTIES Grows AnalysisEnds
