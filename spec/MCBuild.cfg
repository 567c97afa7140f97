SPECIFICATION MCSpec
CONSTANT Given <- MCGiven
INVARIANTS ExactlyWellFormed ExactlyGiven
PROPERTY BuildEnds
