SPECIFICATION Spec
INVARIANTS First5489 Tenthousandth FirstArray
PROPERTY Independent
CHECK_DEADLOCK FALSE
