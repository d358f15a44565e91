#!/usr/bin/env python3
"""Development tool: does the model checking of the specification notice when
the specification is wrong?  Every mutation below is made in a copy of spec/;
the models listed for it have to fail.  specmut.py [number...]"""
import json, os, shutil, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
import vt, props, docs

MUT = [
 # module, old, new, models any of which has to fail
 ('PostSim', "/\\ discards' = discards + 1", "/\\ discards' = discards", 'MCSim MCSim:MCSim3 MCWorld'),
 ('PostSim', "          /\\ discards' = 0\n", "          /\\ UNCHANGED discards\n", 'MCSim MCSim:MCSim3 MCWorld'),
 ('PostSim', "          /\\ h' = BaseStep(w')\n", "          /\\ h' = h\n", 'MCSim MCSim:MCSim3 MCWorld'),
 ('PostSim', "FALSE \\in Met(Dist(a.w)) /\\ TRUE \\in Crossed(Dist(w), Dist(a.w))", "FALSE \\in Met(Dist(a.w)) /\\ TRUE \\in Crossed(Dist(a.w), Dist(w))", 'MCSim MCSim:MCSim3 MCWorld'),
 ('PostSim', "/\\ w' = a.w /\\ pc' = \"phase\"", "/\\ w' = w /\\ pc' = \"phase\"", 'MCSim MCSim:MCSim3 MCWorld'),
 ('PostSim', "/\\ out' = <<\"record\", w>> /\\ UNCHANGED <<pc, w>>", "/\\ out' = <<\"record\", a.w>> /\\ UNCHANGED <<pc, w>>", 'MCSim MCSim:MCSim3 MCWorld'),
 ('PostSim', "/\\ out' = <<\"record\", w>> /\\ UNCHANGED <<pc, w>>", "/\\ w' = a.w /\\ out' = <<\"record\", w>> /\\ UNCHANGED <<pc>>", 'MCSim MCSim:MCSim3 MCWorld'),
 ('PostSim', "/\\ pc = \"phase\" /\\ k < NPhases(w)\n  /\\ k' = k + 1", "/\\ pc = \"phase\" /\\ k < NPhases(w)\n  /\\ k' = IF k + 2 <= NPhases(w) /\\ k > 0 THEN k + 2 ELSE k + 1", 'MCSim MCSim:MCSim3 MCWorld'),
 ('PostSim', "/\\ w' = a.w /\\ out' = <<\"record\", a.w>> /\\ UNCHANGED <<pc, h, discards>>", "/\\ w' = a.w /\\ out' = <<\"record\", a.w>> /\\ h' = h /\\ discards' = 0 /\\ UNCHANGED pc", 'MCSim MCSim:MCSim3 MCWorld'),
 ('PostSim', "IF k = 0 /\\ ~HasInit(w)", "IF FALSE /\\ ~HasInit(w)", 'MCSim'),
 ('PostWorld', ".time_since_event = F0]", ".time_since_event = w.s.time_since_event]", 'MCWorld'),
 ('PostWorld', "s == IF k > 1 THEN s0", "s == IF k > 2 THEN s0", 'MCWorld'),
 ('PostWorld', "Deg(s.euler_angles[3])", "Deg(s.euler_angles[2])", 'MCWorld'),
 ('PostWorld', "Less(FNeg(Tolerance), old.d, eps)", "Less(F0, old.d, F1)", 'MCWorld'),
 ('PostWorld', "p == Overlay(w.par, c)", "p == Overlay(IF k = 2 THEN DefaultPar ELSE w.par, c)", 'MCWorld'),
 ('PostDyn', "!.propellant_mass = s.mass \\ominus par.structure", "!.propellant_mass = s.propellant_mass", 'MCWorld'),
 ('PostDyn', ".time_since_event = s.time_since_event \\oplus t", ".time_since_event = s.time_since_event \\oplus s.time_since_event \\oplus t", 'MCWorld'),
 ('PostDyn', "massflow = k \\otimes FullFlow", "massflow = FNeg(k) \\otimes FullFlow", 'MCWorld'),
 ('PostDyn', "hh, hh, s2.velocity", "h, hh, s2.velocity", 'MCStep'),
 ('PostDyn', "VWeighted(s1.velocity, s2.velocity, s3.velocity, s4.velocity)", "VWeighted(s1.velocity, s2.velocity, s2.velocity, s4.velocity)", 'MCStep'),
 ('PostDyn', "(Sixth \\otimes (a \\oplus d)) \\oplus (Third", "(Third \\otimes (a \\oplus d)) \\oplus (Sixth", 'MCStep'),
 ('PostDyn', "velocity_norm |-> <<\"velocity\", 4>>", "velocity_norm |-> <<\"velocity\", 3>>", 'MCNames'),
 ('PostDyn', "position_planet2 |-> <<\"position_planet\", 2>>", "position_planet2 |-> <<\"position\", 2>>", 'MCNames'),
 ('PostDyn', "\"dynamic_pressure\"}", "\"dynamic_pressure\", \"alpha\"}", 'MCNames'),
 ('PostDyn', "EulerAngles(par, c0, LAMBDA v : Value(v, s1))", "EulerAngles(par, c0, LAMBDA v : Value(v, s))", 'MCNames'),
 ('PostDyn', "Coefficient(par.lift, LAMBDA v : Value(v, s2))", "Coefficient(par.lift, LAMBDA v : Value(v, s1))", 'MCNames'),
 ('PostConfig', '"temperature", "pressure",', '"pressure",', 'MCNames'),
 ('PostMission', 'Opt(s, "yaw", p.yaw)', 'Opt(s, "yaw", p.pitch)', 'MCMission'),
 ('PostMission', 'Opt(a, "wind", p.wind)', 'Opt(a, "wind", VZero)', 'MCMission'),
 ('PostMission', 'IF FEq(lim, F("-1")) THEN FInf', 'IF FEq(lim, F("-2")) THEN FInf', 'MCMission'),
 ('PostMission', 'THEN prop \\oplus v.structure_mass', 'THEN m \\oplus v.structure_mass', 'MCMission MCWorld'),
 ('PostMission', 'step |-> Opt(c, "stepsize", p.step)', 'step |-> Opt(c, "stepsize", F1)', 'MCMission MCWorld'),
 ('PostVehicle', "FNeg((e.thrust_vac \\oslash e.isp_vac) \\oslash StdGravity)", "FNeg(((e.thrust_vac \\ominus e.exit_area) \\oslash e.isp_vac) \\oslash StdGravity)", 'MCEngines'),
 ('PostVehicle', "FCos(e.incidence[2]) \\otimes FSin(e.incidence[1])", "FSin(e.incidence[1])", 'MCEngines'),
 ('PostVehicle', "VAdd(EngineThrust(Head(es), p), FullThrust(Tail(es), p))", "IF Tail(es) # <<>> /\\ Head(es) = es[2] THEN FullThrust(Tail(es), p) ELSE VAdd(EngineThrust(Head(es), p), FullThrust(Tail(es), p))", 'MCEngines'),
 ('PostVehicle', "e.thrust_vac \\ominus (e.exit_area \\otimes p)", "e.thrust_vac \\oplus (e.exit_area \\otimes p)", 'MCEngines'),
 ('PostVehicle', "Clamp01(w \\ominus b)", "Clamp01(FNeg(w \\oplus b))", 'MCThrottle'),
 ('PostVehicle', "ELSE Clamp01(FNeg(w \\oplus b))", "ELSE Clamp01(w \\ominus b)", 'MCThrottle'),
 ('PostTables', "i >= Len(args) - 1 \\/ x", "i >= Len(args) - 2 \\/ x", 'MCTables'),
 ('PostTables', "ELSE IF Len(d) = 1 THEN Look1(ys, y, d[1])", "ELSE IF Len(d) = 1 THEN Look1(ys, x, d[1])", 'MCTables'),
 ('PostTables', "ELSE IF Len(d) = 1 THEN d[1]", "ELSE IF Len(d) = 1 THEN F0", 'MCTables'),
 ('PostTables', "IF FIsNaN(c) THEN F0 ELSE c", "c", 'MCTables'),
 ('PostTables', "Fits(xs, d) /\\ Increasing(ys) /\\ \\A i \\in 1..Len(d) : WellFormed1", "Fits(xs, d) /\\ \\A i \\in 1..Len(d) : WellFormed1", 'GenTables'),
 ('PostTables', "args[i] \\prec args[i + 1]", "args[i] \\preceq args[i + 1]", 'GenTables'),
 ('PostPlanet', "(Oblateness(p) \\ominus F1) \\otimes Sq(s)", "(Oblateness(p) \\ominus F1) \\otimes s", 'MCPlanet'),
 ('PostPlanet', 'F("7.5") \\otimes Sq(s)) \\ominus F("1.5")', 'F("7.5") \\otimes Sq(s)) \\ominus F("2.5")', 'MCPlanet'),
 ('PostPlanet', "MVec(RotZ(p.rate \\otimes t), r)", "MVec(RotZ(FNeg(p.rate \\otimes t)), r)", 'MCPlanet'),
 ('PostPlanet', "(MeanRadius(p) \\otimes alt) \\oslash (MeanRadius(p) \\oplus alt)", "(MeanRadius(p) \\otimes alt) \\oslash (p.re \\oplus alt)", 'MCPlanet'),
 ('PostPlanet', "<<FNeg(p.rate \\otimes r[2]), p.rate \\otimes r[1], F0>>", "<<p.rate \\otimes r[2], p.rate \\otimes r[1], F0>>", 'MCPlanet'),
 ('PostDyn', "FAtan(FTan(lat) \\oslash Oblateness(p))", "FAtan(FTan(lat) \\otimes Oblateness(p))", 'MCPlanet'),
 ('PostAtmosphere', "IF i = 1 \\/ Layers[i].alt \\preceq h", "IF i = 1 \\/ Layers[i].alt \\prec (h \\ominus F(\"100\"))", 'MCAtmosphere'),
 ('PostAtmosphere', 'F("411.57")', 'F("411.67")', 'MCAtmosphere'),
 ('PostAtmosphere', "p \\oslash (t \\otimes GasConstant)", "(p \\otimes GasConstant) \\oslash t", 'MCAtmosphere'),
 ('PostSteering', "MMul(MMul(MMul(RotY(e[3]), RotZ(e[2])), RotX(e[1]))", "MMul(MMul(MMul(RotZ(e[2]), RotY(e[3])), RotX(e[1]))", 'MCAttitude'),
 ('PostSteering', "VSub(VScale(FCos(az), east), VScale(FSin(az), north))", "VSub(VScale(FSin(az), north), VScale(FCos(az), east))", 'MCAttitude'),
 ('PostSteering', "(c[3] \\otimes Cube(y))", "(c[3] \\otimes Sq(y))", 'MCAttitude MCStep'),
 ('PostConfig', 'IF v[1] = "null" THEN "yes" ELSE Judge(s[3][n], v)', 'IF v[1] = "null" THEN "no" ELSE Judge(s[3][n], v)', 'GenConfig'),
 ('PostConfig', "~Distinct(t) \\/ ~(DOMAIN s[2]", "~(DOMAIN s[2]", 'GenConfig'),
 ('PostPure', "[slot EXCEPT ![s] = IF m \\in Refused THEN None ELSE m]", "[slot EXCEPT ![s] = IF m \\in Refused THEN @ ELSE m]", 'GenOps'),
 ('PostPure', "slot' = [s \\in Slots |-> None] /\\ world' = w", "slot' = slot /\\ world' = w", 'MCPure'),
 ('PostPure', "UNCHANGED <<slot, world>>", "slot' = [slot EXCEPT ![s] = None] /\\ UNCHANGED world", 'MCPure'),
]
SPEC = vt.SPEC
vt.build()
pick = [int(x) for x in sys.argv[1:]] or range(len(MUT))


def rows_of(model):
    if model == 'GenConfig':
        return [{'tree': docs.tree(b)} for b in docs.BASES]
    return props.model_rows(model, 'quick')


for n in pick:
    module, old, new, models = MUT[n]
    d = tempfile.mkdtemp(prefix='specmut-')
    vt.SPEC = os.path.join(d, 'spec')
    shutil.copytree(SPEC, vt.SPEC)
    p = os.path.join(vt.SPEC, module + '.tla')
    s = open(p).read()
    if s.count(old) < 1:
        print(n, module, 'NOT APPLICABLE', old, flush=True)
        continue
    open(p, 'w').write(s.replace(old, new, 1))
    got = []
    for m in models.split():
        try:
            m, _, c = m.partition(':')
            r = vt.tlc(m, cfg=c or None, data={'CASES': rows_of(m)} if rows_of(m) else None, env={'OUT': d + '/out'})
            bad = [l for l in r['out'].splitlines() if 'violated' in l or 'Error' in l]
            got.append('%s: %s' % (m, bad[0] if bad else 'nothing'))
        except vt.ToolError as e:
            got.append('%s: %s' % (m, str(e).splitlines()[0]))
    print(n, module, 'MISSED' if all('nothing' in g for g in got) else 'found', repr(new[:50]), got, flush=True)
    shutil.rmtree(d)
vt.SPEC = SPEC
vt.cleanup()
