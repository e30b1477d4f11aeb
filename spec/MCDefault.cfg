SPECIFICATION Spec
INVARIANT MassIsOne
INVARIANT NonNegative
INVARIANT ClosedForm
INVARIANT SureDefault
PROPERTY OnlyForward
