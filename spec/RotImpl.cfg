SPECIFICATION Spec
INVARIANTS Rotates Inverse OnlyHalf Quarters Slope
CHECK_DEADLOCK FALSE
