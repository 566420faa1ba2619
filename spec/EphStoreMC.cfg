SPECIFICATION Spec
CONSTANTS T = 3  Toes = {1, 3, 4}  MaxAdds = 4  Near_ = FALSE
INVARIANTS Ordered FromInput EarliestKept UserRight NearRight
CHECK_DEADLOCK FALSE
