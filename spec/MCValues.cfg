SPECIFICATION Spec
CONSTANT MaxHeap = 3
INVARIANTS Unshared Equivalence
CHECK_DEADLOCK FALSE
