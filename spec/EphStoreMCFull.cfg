SPECIFICATION Spec
CONSTANTS T = 5  Toes = {2, 3, 5}  MaxAdds = 5  Near_ = FALSE
INVARIANTS Ordered FromInput EarliestKept UserRight NearRight
CHECK_DEADLOCK FALSE
