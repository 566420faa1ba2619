SPECIFICATION Spec
CONSTANTS T = 3  Toes = {1, 3, 4}  MaxAdds = 4  Near_ = TRUE
INVARIANTS Ordered FromInput EarliestKept UserRight NearRight
CHECK_DEADLOCK FALSE
