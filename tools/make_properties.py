import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))

p("C01","Phases run in order and hand their end state over unchanged",
"The phases of a mission run in the listed order, each exactly once, and the result is the end state of the last one. Every phase starts at exactly the time, inertial position and inertial velocity (and, unless it sets a mass parameter, the mass) at which the phase before it ended, with the time since the last event restarted at zero. A later phase never influences an earlier one, and only the first phase's initialisation takes effect.",
["histories","configurations"],"every sequence of phases, whatever parameters each of them changes",
"One mission (the 11-phase example) is run end to end and only its final altitude, speed and time are compared with 0.2 % slack; the hand-over between two phases is never looked at.",
["sim/src/lib.rs","sim/src/phase.rs"],[("Simulation::run loop over the configurations","sim/src/lib.rs"),("Phase::new clones the previous phase; Phase::reset","sim/src/phase.rs")],
[("state","simulation state carried from phase to phase","Phase.state")],["returned State of mission prefixes","'Starting Phase' lines on stdout"])

p("C02","A phase inherits every parameter it does not set",
"Each phase uses the parameters in force at the end of the phase before it, with exactly those replaced that it specifies itself; an omitted or null parameter stays as it was, however many phases ago it was set, and the first phase starts from the defaults (no engines, tables, wind, limit or steering, atmosphere off, spherical planet). Engines and each coefficient table are replaced as a whole, and each steering axis and the atmosphere's switch and wind are inherited one by one. A mission written out in full therefore flies the same trajectory as one that lists only the changes.",
["configurations","histories"],"every subset of parameters set in every phase of every sequence of phases",
"The tests only ever apply the overlays of the one example mission; most parameters are set once, and no test checks that an unset parameter survived.",
["sim/src/phase.rs","sim/src/vehicle.rs","sim/src/atmosphere/mod.rs","sim/src/steering.rs","sim/src/planet.rs","sim/src/config.rs"],
[("Phase::new overlay","sim/src/phase.rs"),("update_with_config of Vehicle, Atmosphere, Steering, Planet","sim/src/*.rs")],
[("parameters in force","planet, atmosphere, vehicle, steering, limits, step size, end criterion","Phase")],["trajectory (stdout records) and returned State"])

p("C03","A phase ends only with its end criterion met, and at the first crossing",
"A phase that completes ends in a state in which its end criterion variable differs from the target by less than 0.001. It ends at the first crossing of the target that the sequence of time steps can see: none of its earlier states lies beyond the target as seen from where the variable was before, and a variable that merely moves away from the target, stays constant or has already passed it does not end the phase or turn it back in time.",
["histories","inputs"],"every end criterion variable, target and course of that variable (monotone, oscillating, flat, discontinuous) over the time steps",
"Tests end phases on time and once on propellant mass, both monotone and approached from the expected side.",
["sim/src/phase.rs","sim/src/state.rs"],[("Phase::step tolerance test, Phase::event_is_active","sim/src/phase.rs")],
[("end_criterion","variable and target","Phase.end_criterion")],["returned State of mission prefixes","records on stdout"])

p("C04","An overshooting step is discarded, retried shorter, and retries are bounded",
"A time step that carries the end criterion past its target is discarded without a trace in the state and is retried from the same state with a shorter step, estimated by linear interpolation between the values before and after it. The search gives up by aborting the simulation only when a further overshoot follows 21 discarded steps in one phase; every phase starts with the full number of tries. It never accepts the overshot state, never loops for ever on one, and never reports a phase as complete when the search failed.",
["histories","schedules"],"every sequence of overshoots and undershoots, in every phase of a mission, including criteria the search cannot hit",
"No test provokes more than a few retries, none exhausts them, and none looks at the state after a discarded step or at the count in a later phase.",
["sim/src/phase.rs"],[("Phase::step retry branch, Phase::time_to_go, end_criterion_tries","sim/src/phase.rs"),("Phase::reset","sim/src/phase.rs")],
[("end_criterion_tries","overshoots in this phase","Phase.end_criterion_tries"),("stepsize","size of the next step","Phase.stepsize")],["records on stdout (one per attempted step)","abort or returned State"])

p("C05","Time advances by the configured step size",
"As long as a phase has not overshot its end criterion, every time step lasts exactly the step size configured for that phase, inherited from earlier phases if it sets none; a phase starts with that step size again however short the last step of the phase before was. Simulation time and time since the last event advance together by the same amount and never run backwards.",
["histories","configurations"],"every combination of configured and inherited step sizes, phases and ways in which the previous phase ended",
"No test observes the step size a phase uses: the example mission's results differ by less than the tolerances whatever step size is used (on the original tree the configured one was ignored).",
["sim/src/phase.rs","sim/src/integration/mod.rs","sim/src/integration/runge_kutta.rs"],[("Phase::reset restores the step size","sim/src/phase.rs"),("Integrator::step advances both times","sim/src/integration/mod.rs")],
[("base_stepsize","configured step size","Phase.base_stepsize")],["times in the records on stdout","time fields of returned State"])

p("C06","Mass is accounted for exactly",
"At every time the vehicle's mass is its structure mass plus the remaining propellant, and it changes during a phase only by the propellant flow, which is the throttle times the sum over the engines of vacuum thrust over specific impulse and standard gravity. A new phase that sets the structure mass keeps the remaining propellant, one that sets the propellant mass discards what was left or consumed, and one that sets neither keeps the mass.",
["histories","configurations"],"every sequence of stagings, engine changes and burns",
"Only one staging occurs in the tests, setting both masses at once, and the mass is compared with 0.1 % slack.",
["sim/src/phase.rs","sim/src/vehicle.rs","sim/src/state.rs"],[("mass update in Phase::new","sim/src/phase.rs"),("Vehicle::massflow, Engine::massflow","sim/src/vehicle.rs")],
[("mass","total mass","State.mass"),("propellant_mass","remaining propellant","State.propellant_mass")],["mass, propellant_mass, massflow, throttle of returned State","'Prop mass' on stdout"])

p("C07","Attitude follows the steering polynomial and is continuous across phases",
"Each of roll, yaw and pitch is the cubic polynomial in the state variable chosen for that axis, whose constant term is the angle in which the previous phase ended (zero in the first phase) and whose other coefficients are those last configured for the axis. A phase steered by the time since the last event therefore starts in exactly the attitude in which the previous one ended.",
["configurations","histories","inputs"],"every choice of variables and coefficients per axis and phase, including axes left unchanged",
"Tests steer only pitch, only linearly, and only by the time since the last event.",
["sim/src/steering.rs","sim/src/phase.rs"],[("Steering::euler_angles, Steering::init, Steering::update_with_config","sim/src/steering.rs"),("Phase::reset","sim/src/phase.rs")],
[("steering coefficients","polynomial per axis","Steering")],["euler_angles of returned State"])

p("C08","The acceleration limit is kept by throttling only as much as needed",
"The throttle always lies between 0 and 1, and it is below 1 only where a maximum sensed acceleration is configured, which the sensed acceleration then meets exactly (by the smaller of two such throttles where thrust itself is needed to keep it); otherwise full thrust is used and keeps the limit. The simulation aborts if, and only if, no throttle keeps the limit; it never continues with a sensed acceleration more than 0.1 % above it. A limit of -1 means no limit.",
["inputs","histories"],"every combination of engines, aerodynamic forces (any size and direction relative to the thrust), mass, air pressure and limit",
"The tests evaluate four points of one ascent, with thrust and drag almost opposite; oblique, parallel and overwhelming aerodynamic forces are never tried.",
["sim/src/vehicle.rs","sim/src/phase.rs"],[("Vehicle::auto_throttle, side_side_angle","sim/src/vehicle.rs"),("limit check in Phase::system","sim/src/phase.rs")],
[("throttle","engine throttle","State.throttle")],["throttle, vehicle_acceleration_body of returned State","abort"])

p("C09","Aerodynamic force follows the coefficient tables, each on its own",
"The aerodynamic force is dynamic pressure times reference area times the coefficients of the three tables, drag and lift turned by the angle of attack into axial and normal force and the side force taken as is. A table that is empty or not given contributes nothing and leaves the effect of the other tables unchanged. The angle of attack is that of the air flow in the body's pitch plane, positive for flow from below and negative for flow from above, and plus or minus 90 degrees if there is no flow from the front.",
["inputs","configurations"],"every combination of given and missing tables, air flow direction, attitude and wind",
"Tests evaluate four points with both tables present, almost no angle of attack and no side force.",
["sim/src/vehicle.rs","sim/src/phase.rs"],[("Vehicle::aero_force, Vehicle::alpha","sim/src/vehicle.rs")],
[("aero_force_body","aerodynamic force","State.aero_force_body")],["aero_force_body, alpha, dynamic_pressure of returned State"])

p("C10","A coefficient table is accepted exactly if it is well-formed",
"A configuration loads only if, in every coefficient table, the argument values are strictly increasing and the data has exactly one entry per argument value in every dimension and at every nesting level, checked for every row and not just the first. Any other table makes loading fail with an error before anything is simulated; every well-formed one-, two- or three-dimensional table loads, including empty and one-entry tables.",
["inputs"],"every table shape, nesting and ordering of argument values",
"A handful of malformed tables is tried; in the multi-dimensional ones the fault is always in the first row.",
["sim/src/utils/tables/mod.rs","sim/src/utils/tables/deserialization.rs"],[("validate, Table1D/2D/3D::try_new","sim/src/utils/tables/mod.rs")],
[],["result of Simulation::from_file"])

p("C11","Tables interpolate multilinearly and extrapolate from the outermost segment",
"A table look-up returns the tabulated value at every grid point, the linear interpolation between the two neighbouring argument values in each dimension in between, and the continuation of the outermost segment beyond either end. A dimension with a single argument value is constant. The result never depends on other parts of the table than the segment the arguments fall into.",
["inputs"],"every table and every argument: on, between, below and above the argument values, in every dimension",
"Eight evaluations on evenly spaced tables whose data is itself linear, for which a wrong segment gives the right answer.",
["sim/src/utils/tables/linear_interpolation.rs","sim/src/utils/tables/mod.rs"],[("get_idx, linear_/bilinear_/trilinear_interpolate","sim/src/utils/tables/linear_interpolation.rs")],
[],["aero_force_body of returned State with the table as side force coefficient"])

p("C12","A faulty configuration is refused, never half-obeyed",
"A configuration file is loaded exactly if it is a JSON array of phases built from the documented parameters: an unknown, misspelled or duplicated parameter, a wrong type, an unknown planet model, interpolator or state variable, or a missing part of an engine, initialisation or custom planet is refused with an error, and every documented parameter may be omitted or null. A mission whose first phase has no initialisation is never simulated. The command line tool exits with a failure status and simulates nothing in all these cases, and with success after a completed mission.",
["inputs"],"every configuration document, in particular every single mutation of a valid one at every position",
"Only the example file and two broken tables are parsed.",
["sim/src/config.rs","sim/src/lib.rs","sim/src/state.rs","sim/src/vehicle.rs","src/main.rs"],[("serde derive with deny_unknown_fields","sim/src/config.rs"),("Simulation::from_file","sim/src/lib.rs"),("main propagates the error","src/main.rs")],
[],["result of Simulation::from_file","exit status and output of the command line tool"])

p("C13","The vehicle starts at rest on the given site and altitude",
"The first phase starts at the given geodetic latitude, longitude and altitude above the planet's surface, on whichever planet model is in force: at altitude zero the outward normal of the surface makes the given latitude with the equator plane, and the reported altitude is the given one. The vehicle starts at rest relative to the rotating planet, so its inertial velocity is that of the ground below.",
["inputs","configurations"],"every latitude (both hemispheres, poles, equator), longitude, altitude and planet model, including custom oblate ones",
"Only 28.5 deg north at altitude zero on a spherical planet is tried; on the original tree the altitude was ignored and the latitude wrong on oblate planets.",
["sim/src/phase.rs","sim/src/planet.rs"],[("Phase::init","sim/src/phase.rs"),("Planet::altitude, Planet::velocity_planet","sim/src/planet.rs")],
[("position, velocity","inertial state","State")],["returned State of a phase of zero length"])

p("C14","Gravity is that of the planet model in force",
"Gravity at every position is the gradient of the potential of the planet model in force: the point mass term for the spherical planet, with J2 for the Fisher model, with J2 to J4 for the Smithsonian model, or with the parameters given for a custom planet. It depends on nothing but the position and the planet, is rotationally symmetric about the polar axis, and only the odd harmonic J3 distinguishes north from south.",
["inputs","configurations"],"every position (both hemispheres, any radius) and every planet model",
"Four positions of one ascent on the spherical planet; no harmonic is ever non-zero in a test.",
["sim/src/planet.rs"],[("Planet::gravity","sim/src/planet.rs")],[("gravity_acceleration","gravity","State.gravity_acceleration")],["gravity_acceleration of returned State"])

p("C15","Air data follow the 1962 standard atmosphere at every altitude",
"With the atmosphere enabled, temperature, pressure and density are those of the 1962 U.S. standard atmosphere at the geopotential altitude, layer by layer, from below sea level to above the top layer; the Mach number and dynamic pressure follow from them and from the speed relative to the moving air. With the atmosphere disabled temperature, pressure, density, dynamic pressure and every aerodynamic force are zero, while the wind still counts.",
["inputs","configurations"],"every altitude, in every one of the 22 layers, and every air-relative velocity",
"Four altitudes are tested, three of which lie in the same few layers.",
["sim/src/atmosphere/mod.rs","sim/src/atmosphere/standard_atmosphere_1962.rs"],[("layer selection and formulas","sim/src/atmosphere/standard_atmosphere_1962.rs"),("model switch","sim/src/atmosphere/mod.rs")],[],["temperature, pressure, density, mach_number, dynamic_pressure of returned State"])

p("C16","Forces add up and are turned into the inertial frame by the attitude",
"The sensed acceleration is the sum of the thrust and aerodynamic force divided by the mass, and the inertial acceleration is the sensed acceleration turned from the body into the inertial frame plus gravity. The turn is a pure rotation given by the launch site's geocentric latitude and longitude, the launch azimuth, and the roll, yaw and pitch angles; at zero angles the body's longitudinal axis points radially outward at the launch site, whatever the vehicle's present position.",
["inputs","histories"],"every launch site, azimuth, attitude, position and force",
"Tests cover one launch site with azimuth 90 deg and attitudes without roll and yaw.",
["sim/src/phase.rs","sim/src/transformations.rs"],[("Phase::system","sim/src/phase.rs"),("inertial_to_launch, launch_to_body","sim/src/transformations.rs")],[("launch","launch frame, fixed in the first phase","Phase.launch")],["acceleration, vehicle_acceleration_body, forces, euler_angles of returned State"])

p("C17","Planet-relative quantities follow from the inertial state, rotation and wind",
"At every time the planet-relative position is the inertial position seen from the frame that has turned with the planet since time zero; the planet-relative velocity is the inertial velocity minus that of the co-rotating ground; the air-relative velocity is that minus the configured wind, with or without an atmosphere. The altitude is the height above the oblate surface below the vehicle, and the geopotential altitude follows from it and the planet's mean radius.",
["inputs","histories"],"every time, position, velocity, planet model, rotation rate and wind",
"The transformation into the planet frame is never tested, wind is always zero, and altitude is tested on the spherical planet only.",
["sim/src/planet.rs","sim/src/transformations.rs","sim/src/atmosphere/mod.rs","sim/src/phase.rs"],[("inertial_to_planet","sim/src/transformations.rs"),("Planet::altitude, geopotential_altitude, velocity_planet","sim/src/planet.rs"),("Atmosphere::velocity_atmosphere","sim/src/atmosphere/mod.rs")],[],["position_planet, velocity_planet, velocity_atmosphere, altitude, altitude_geopotential of returned State"])

p("C18","Every state variable name selects the quantity it names",
"Every documented state variable name, wherever it is used (end criterion, steering, or any argument of a coefficient table), selects exactly the quantity of that name, with components numbered x, y, z and norms being Euclidean lengths; no two names are mixed up. Where a quantity is used before it is computed in the same evaluation (attitude, angle of attack and later ones when steering, forces and later ones in coefficient tables) it reads as zero in every time step.",
["inputs","configurations"],"every variable name in every place where a name can be given",
"The tests name time, time_since_event, propellant_mass, mass, altitude, alpha and mach_number; the other names are never used.",
["sim/src/state.rs","sim/src/phase.rs"],[("StateVariable::get_value","sim/src/state.rs"),("order of evaluation in Phase::system","sim/src/phase.rs")],[],["returned State of phases ended or steered by the variable, aero_force_body for tables"])

p("C19","Each time step is a fourth-order Runge-Kutta step of the equations of motion",
"Every accepted time step takes position, velocity and mass to the classical fourth-order Runge-Kutta solution of the equations of motion over the step, with the position driven by the velocity, the velocity by the inertial acceleration and the mass by the propellant flow, all evaluated at the intermediate states and times. All other reported quantities are evaluated at the end of the step. Motion that is cubic or less in time is therefore integrated exactly, whatever the step size.",
["inputs","histories"],"every start state, step size and parameters, over any number of steps and phases",
"The integrator is tested on one two-variable textbook equation and the trajectory with 0.1 % slack, which a second-order scheme would meet too.",
["sim/src/integration/runge_kutta.rs","sim/src/integration/mod.rs","sim/src/phase.rs","sim/src/state.rs"],[("RungeKutta::step, RK4 tableau","sim/src/integration/runge_kutta.rs"),("conversion to and from the integrated vector","sim/src/integration/mod.rs, sim/src/state.rs")],[("position, velocity, mass","integrated state","State")],["returned State after each number of steps"])

p("C20","Thrust is the sum of all engines, each pressure-corrected and in its direction",
"The thrust force is the throttle times the vector sum, over all engines of the phase, of vacuum thrust minus exit area times air pressure along the direction given by the engine's two incidence angles; propellant flow does not depend on the air pressure or the incidence. With no engines there is neither thrust nor flow.",
["inputs","configurations"],"every number of engines, incidence, exit area, air pressure and throttle",
"Tests use one engine without incidence.",
["sim/src/vehicle.rs"],[("Vehicle::thrust_force, Engine::thrust, Engine::massflow","sim/src/vehicle.rs")],[],["thrust_force_body, massflow, throttle, pressure of returned State"])

p("C21","Standard output reports every phase and every time step truthfully",
"Each phase is announced by its number, counted from 1, and every attempted time step of it is followed by exactly one record of time, planet-relative position, inertial velocity, altitude and propellant mass, in this order, rounded to whole numbers. A record shows the state the phase is in after the attempt, so a discarded step repeats the previous record and the last record shows the returned end state.",
["histories","inputs"],"every mission, including negative and large values and discarded steps",
"No test looks at the output, on which the plotting tool depends.",
["sim/src/lib.rs","sim/src/phase.rs","src/main.rs","utils/plot/plot.py"],[("println! in Simulation::run and Phase::run","sim/src/lib.rs, sim/src/phase.rs")],[],["standard output"])

p("C22","A simulation is a pure function of its configuration",
"Running the same configuration again, in the same process on the same or a newly loaded simulation, after other missions (completed or aborted) or in a new process by the command line tool, gives bit for bit the same result and the same output. Nothing else has a part in it: neither the time, the speed or the kind of the machine, nor environment variables, other files, or the name and place of the file. Loading does not depend on the order in which parameters are written in the file or on white space.",
["histories","schedules"],"every sequence of loads and runs, including aborted ones in between, in every environment",
"No test runs a mission twice.",
["sim/src/lib.rs","sim/src/config.rs","src/main.rs"],[("Simulation::run takes &self and builds its phases anew","sim/src/lib.rs")],[],["returned State and standard output of repeated runs"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,S)
import re
for x in P:
    n=len(re.findall(r'[.](?:\s|$)',x['statement'])); print(x['id'],n,len(x['statement']))
