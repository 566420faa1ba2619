SPECIFICATION Spec
CONSTANT MaxWords = 4
INVARIANTS Ordered Counted EndsRight Canonical
CHECK_DEADLOCK FALSE
