SPECIFICATION Spec
INVARIANTS Viable Sentence Complete Located SameAsDrive SameAsDescent
PROPERTY Ends
CHECK_DEADLOCK FALSE
