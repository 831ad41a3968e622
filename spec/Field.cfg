SPECIFICATION Spec
CONSTANT P = 0
INVARIANTS TypeOK BCHold Projects AxisOrder DerivLaw ClosedForm RealField Identity
CHECK_DEADLOCK FALSE
