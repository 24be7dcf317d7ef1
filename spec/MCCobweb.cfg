SPECIFICATION MCSpec
CONSTANT
  Meta <- MetaDef
  MaxFits = 3
  Domain <- NomDomain
INVARIANTS Shape Conserved PureLeaves Laminate NeverStuck CatTotal
PROPERTY Refines
CHECK_DEADLOCK FALSE
