INIT Init
NEXT Next
CONSTANTS
  LatStep = 1
  Radii <- RadiiT
INVARIANTS LegendreLaw GradientLaw SymmetryLaw NorthSouthLaw SphericalLaw SiteLaw HeightLaw GeopotentialLaw GroundLaw
CHECK_DEADLOCK FALSE
