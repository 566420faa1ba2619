SPECIFICATION Spec
CONSTANTS T = 2  Toes = {1, 3}  MaxAdds = 4
INVARIANTS Ordered EarliestKept NearestTotal NearestUser
CHECK_DEADLOCK FALSE
