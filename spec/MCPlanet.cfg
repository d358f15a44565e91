INIT Init
NEXT Next
CONSTANTS
  LatStep = 10
  Radii <- RadiiQ
INVARIANTS LegendreLaw GradientLaw SymmetryLaw NorthSouthLaw SphericalLaw SiteLaw HeightLaw GeopotentialLaw GroundLaw
CHECK_DEADLOCK FALSE
