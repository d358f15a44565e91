--------------------------- MODULE PostAtmosphere ---------------------------
(* The 1962 U.S. standard atmosphere, by layers of the geopotential altitude.*)
EXTENDS Vec, Sequences
LOCAL INSTANCE Integers

Foot == F("0.3048")
StdGravity == F("9.80665")
GasConstant == F("8314.32") \oslash F("28.9644")       \* of air, J/(kg K)
Kappa == F("1.4")
PascalPerPsf == (F("0.4535924") \otimes StdGravity) \oslash (Foot \otimes Foot)
KelvinPerRankin == F1 \oslash F("1.8")

\* <<base altitude [ft], pressure [psf], temperature [R], gradient [R/ft]>>
LayersImperial == <<
  <<F("0"),         F("0.21162166e4"),  F("518.67"),  F("-0.35661600e-2")>>,
  <<F("36089.239"), F("0.47268050e3"),  F("389.97"),  F("0")>>,
  <<F("65616.797"), F("0.11434543e3"),  F("389.97"),  F("0.54863995e-3")>>,
  <<F("104986.87"), F("0.18128948e2"),  F("411.57"),  F("0.15361920e-2")>>,
  <<F("154199.48"), F("0.23163263e1"),  F("487.17"),  F("0")>>,
  <<F("170603.68"), F("0.12322603e1"),  F("487.17"),  F("-0.10972801e-2")>>,
  <<F("200131.23"), F("0.38032532e0"),  F("454.77"),  F("-0.21945600e-2")>>,
  <<F("259186.35"), F("0.21673064e-1"), F("325.17"),  F("0")>>,
  <<F("291151.57"), F("0.34333824e-2"), F("325.17"),  F("0.16953850e-2")>>,
  <<F("323002.74"), F("0.62814785e-3"), F("379.17"),  F("0.28345707e-2")>>,
  <<F("354753.59"), F("0.15361733e-3"), F("469.17"),  F("0.56867005e-2")>>,
  <<F("386406.39"), F("0.52676024e-4"), F("649.17"),  F("0.11443751e-1")>>,
  <<F("480781.04"), F("0.10586108e-4"), F("1729.17"), F("0.86358208e-2")>>,
  <<F("512046.16"), F("0.77263469e-5"), F("1999.17"), F("0.57749093e-2")>>,
  <<F("543215.48"), F("0.58405376e-5"), F("2179.17"), F("0.40610461e-2")>>,
  <<F("605268.45"), F("0.35246030e-5"), F("2431.17"), F("0.29274135e-2")>>,
  <<F("728243.91"), F("0.14559124e-5"), F("2791.17"), F("0.23812804e-2")>>,
  <<F("939894.74"), F("0.39418091e-6"), F("3295.17"), F("0.20152600e-2")>>,
  <<F("1234645.7"), F("0.84380249e-7"), F("3889.17"), F("0.16354849e-2")>>,
  <<F("1520799.4"), F("0.22945543e-7"), F("4357.17"), F("0.11010085e-2")>>,
  <<F("1798726.4"), F("0.72259271e-8"), F("4663.17"), F("0.73319725e-3")>>,
  <<F("2068776.5"), F("0.24958752e-8"), F("4861.17"), F("0")>> >>

RECURSIVE Convert(_)
Convert(s) == IF s = <<>> THEN <<>> ELSE
  <<[alt |-> Head(s)[1] \otimes Foot, pres |-> Head(s)[2] \otimes PascalPerPsf,
     temp |-> Head(s)[3] \otimes KelvinPerRankin,
     grad |-> (Head(s)[4] \otimes KelvinPerRankin) \oslash Foot]>> \o Convert(Tail(s))
Layers == Convert(LayersImperial)

\* The layer of an altitude: the highest one whose base is not above it; the
\* lowest one also below its base
RECURSIVE LayerFrom(_, _)
LayerFrom(h, i) == IF i = 1 \/ Layers[i].alt \preceq h THEN i ELSE LayerFrom(h, i - 1)
LayerOf(h) == LayerFrom(h, Len(Layers))

TempIn(l, h) == l.temp \oplus (l.grad \otimes (h \ominus l.alt))
Temperature(h) == TempIn(Layers[LayerOf(h)], h)

PresIn(l, h) ==
  LET gr == StdGravity \oslash GasConstant IN
  IF FEq(l.grad, F0)
  THEN l.pres \otimes FExp(FNeg(((gr \otimes (h \ominus l.alt))) \oslash l.temp))
  ELSE l.pres \otimes FPow(l.temp \oslash TempIn(l, h), gr \oslash l.grad)
Pressure(h) == PresIn(Layers[LayerOf(h)], h)
Density(t, p) == p \oslash (t \otimes GasConstant)
SoundSpeed(t) == FSqrt((Kappa \otimes GasConstant) \otimes t)

\* The layers must agree where they meet (this found two typos in the code)
LayersConsistent ==
  \A i \in 1..(Len(Layers) - 1) :
     /\ Layers[i].alt \prec Layers[i + 1].alt
     /\ FNear(TempIn(Layers[i], Layers[i + 1].alt), Layers[i + 1].temp, F("1e-6"), F0)
     /\ FNear(PresIn(Layers[i], Layers[i + 1].alt), Layers[i + 1].pres, F("1e-6"), F0)
=============================================================================
