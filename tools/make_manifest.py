"""Writes MANIFEST.json."""
import json, os
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    'C01': 'MCSim, MCSim3, MCWorld; ConfState on the states at the ends and starts of all phases, ConfSim and ConfPath on the printed records, ConfPair on prefixes and on missions with later initialisations',
    'C02': 'MCMission; missions expanded by the specification (GenExpand) compared with the original ones (ConfPair), ConfSim on every set/unset pattern of every parameter over four phases',
    'C03': 'MCSim, MCWorld; ConfPath (prescribed courses of the criterion variable), ConfSim and ConfState with all variables as criteria',
    'C04': 'MCSim, MCSim3, MCWorld; ConfPath with up to 22 overshoots per phase, ConfSim with physical criteria',
    'C05': 'MCSim, MCWorld; ConfPath, ConfSim and ConfOut on times of all steps, ConfState on both clocks',
    'C06': 'MCMission, MCWorld; ConfState on masses and flows for all patterns of staging',
    'C07': 'MCMission, MCWorld; ConfState on the angles at both ends of every phase, ConfSim',
    'C08': 'MCThrottle, MCSim3, MCWorld; ConfState on limits near every boundary (full, least and aerodynamic acceleration), ConfSim',
    'C09': 'MCTables; ConfState on every combination of missing, empty, constant and varying tables in flow from any direction',
    'C10': 'every small table of GenTables and larger ones with single defects, loaded and judged by ConfConfig',
    'C11': 'MCTables (two independent definitions of the interpolation agree); ConfState on tables of every size, with arguments on, between and beyond the grid',
    'C12': 'every single change of a set of base configurations (GenConfig, which also checks the laws of the configuration language), texts that are no JSON, and the command line tool, judged by ConfConfig',
    'C13': 'MCPlanet; ConfState on a grid of sites, altitudes and planets',
    'C14': 'MCPlanet; ConfState on positions all around and far from all kinds of planets',
    'C15': 'MCAtmosphere; ConfState on altitudes in and at the ends of all layers',
    'C16': 'MCAttitude; ConfState on a grid of sites, azimuths and attitudes, including all half turns',
    'C17': 'MCPlanet, MCWorld; ConfState on long and fast rotations, far positions, winds',
    'C18': 'MCNames; ConfSim and ConfState with every variable in every place where one may be named',
    'C19': 'MCStep; ConfState on single and partial steps of missions with everything in them, ConfSim',
    'C20': 'MCEngines; ConfState on engines of all kinds under all pressures',
    'C21': 'MCSim, MCWorld; ConfOut on the records of missions whose states are known, ConfPath on discarded steps, ConfSim, and the output of the command line tool',
    'C22': 'MCPure; ConfPure on histories of loads and runs enumerated by GenOps, on long random ones, and on the command line tool in different worlds (time, files, environment variables, machine), ConfPair on configurations written differently',
}
checks = []
for p in sorted(props.GENERATORS):
    cmd = 'python3 tools/check.py ' + p
    checks.append({'property': p, 'quick_cmd': cmd, 'thorough_cmd': cmd, 'technique': 'TLA+ model checked with TLC, and trace validation of the real code against it',
                   'level': 'model_checking',
                   'level_note': 'Laws of the specification are checked exhaustively within bounds; the real code is held to it on generated missions: '
                                 + NOTE[p] + '. Trusts TLC, java/Flt.java (binary64), and the specification as the reading of the documentation.'})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': [],
     'notes': 'No hooks in /repo: everything is observed through the public interface and the command line tool. '
              'Repairs of genuine defects are listed in known-findings.txt.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
