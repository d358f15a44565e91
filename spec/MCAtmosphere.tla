---------------------------- MODULE MCAtmosphere -----------------------------
(* Laws of the standard atmosphere on a grid of altitudes: the layers agree  *)
(* where they meet, pressure obeys the hydrostatic equation, everything is   *)
(* positive, pressure and density fall with the altitude.                    *)
EXTENDS PostAtmosphere, TLC, Integers
CONSTANT Grid      \* distance of the altitudes in m
VARIABLE i
Init == i \in -20..(700000 \div Grid)
Next == UNCHANGED i
H == FInt(i * Grid)
D == F("0.5")
\* dp/dh = -rho g, with the central difference of the pressure
Hydrostatic ==
  LET up == H \oplus D down == H \ominus D IN
  LayerOf(up) = LayerOf(down) =>
    FNear((Pressure(up) \ominus Pressure(down)) \oslash (F2 \otimes D),
          FNeg(Density(Temperature(H), Pressure(H)) \otimes StdGravity), F("1e-6"), F0)
Falls == Pressure(H \oplus D) \prec Pressure(H) /\ F0 \prec Pressure(H)
Warm == F("100") \prec Temperature(H) /\ Temperature(H) \prec F("3000")
\* Every layer reaches from its base to that of the next one
Layered == \A j \in 2..Len(Layers) : (j <= LayerOf(H)) <=> (Layers[j].alt \preceq H)
Lines == LayerOf(H \oplus D) = LayerOf(H) =>
  FNear(Temperature(H \oplus D) \ominus Temperature(H), D \otimes Layers[LayerOf(H)].grad, F("1e-6"), F("1e-12"))
Meet == i = 0 => LayersConsistent
=============================================================================
