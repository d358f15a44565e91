---------------------------- MODULE PostSteering ----------------------------
(* Steering polynomials and the attitude of the vehicle.                     *)
EXTENDS Vec

\* Angle in degrees: c0 + c1 y + c2 y^2 + c3 y^3
Poly(c0, c, y) == (c0 \oplus (c[1] \otimes y)) \oplus ((c[2] \otimes Sq(y)) \oplus (c[3] \otimes Cube(y)))
PolyScale(c0, c, y) == (FAbs(c0) \oplus FAbs(c[1] \otimes y)) \oplus (FAbs(c[2] \otimes Sq(y)) \oplus FAbs(c[3] \otimes Cube(y)))

\* The launch frame: up at the launch site, and the directions of the launch
\* azimuth and 90 degrees to the left of it.  lat is geocentric; all in rad.
LaunchFrame(lat, long, az) ==
  LET up == <<FCos(lat) \otimes FCos(long), FCos(lat) \otimes FSin(long), FSin(lat)>>
      north == <<FNeg(FSin(lat) \otimes FCos(long)), FNeg(FSin(lat) \otimes FSin(long)), FCos(lat)>>
      east == <<FNeg(FSin(long)), FCos(long), F0>>
  IN <<up,
       VSub(VScale(FCos(az), east), VScale(FSin(az), north)),
       VAdd(VScale(FSin(az), east), VScale(FCos(az), north))>>

\* e: roll, yaw and pitch in rad
Attitude(launch, e) ==
  MMul(MMul(MMul(RotY(e[3]), RotZ(e[2])), RotX(e[1])), LaunchFrame(launch[1], launch[2], launch[3]))
=============================================================================
