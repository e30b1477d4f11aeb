SPECIFICATION Spec
INVARIANT NoWorseVols
INVARIANT NoWorsePrices
INVARIANT Exact
INVARIANT Factorised
PROPERTY StageOrder
