"""regenerates MANIFEST.json from the table below"""
import json, os
T = {
'C01': 'generated-input search: model-generated IDL, calls through copying transport for all stub x skeleton pairs, oracle = planned values',
'C02': 'generated-input search: recorded envelope of every stub and skeleton against a reference envelope; multiplicity sweep for acceptance',
'C03': 'generated-input search: differential against an independent reference encoder/decoder for stubs and skeletons',
'C04': 'fault-injecting fuzzing of skeletons: perturbed envelopes with guard pages, oracle = refused, not entered, still usable',
'C05': 'generated-input search: counting objects and a retain/release ledger over success and error calls',
'C06': 'generated structs; differential of sizeof/offsetof probes in C, C++ and Rust against reference layout',
'C07': 'generated hierarchies; op-codes read from compiled/behavioural output of every backend against reference numbering',
'C08': 'generated hierarchies; error values read from compiled output of every backend against reference numbering',
'C09': 'mutation fuzzing: one violation planted at a random position of a valid file set must be refused',
'C10': 'generated valid-by-construction file sets must be accepted in every backend and flag combination',
'C11': 'generated file sets compiled with gcc, clang, g++, clang++, rustc and javac under the upstream warning flags',
'C12': 'generated include graphs against a reference resolver',
'C13': 'metamorphic testing: repeated/relocated/respelled compilations must be byte-identical',
'C14': 'metamorphic testing: trivia, documentation, marking and typed-object edits',
'C15': 'stateful generation of append-only revisions; fragment equality and cross-revision calls',
'C16': 'grammar and mutation fuzzing; crash/hang detection and debug/release differential',
'C17': 'generated constants at type boundaries; exact-arithmetic oracle against probes compiled in C, C++, Rust and Java',
'C18': 'generated Java-supported methods against a stand-in Mink runtime and the reference encoder',
'C19': 'generated accepted/rejected sets x pre-existing outputs; directory snapshot oracle',
'C20': 'random schedule exploration (shuttle) of generated objects; overlap, history and drop oracle',
}
LEVEL = {'C04': 'fault_enumeration'}
NOTE = json.load(open(os.path.join(os.path.dirname(__file__), 'notes.json')))
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for p, t in T.items():
    if os.path.exists(os.path.join(here, 'checks', p.lower() + '.py')):
        checks.append({'property': p, 'quick_cmd': 'python3 run.py ' + p, 'thorough_cmd': 'env VERIF_TIER=thorough python3 run.py ' + p, 'technique': t,
                       'level': LEVEL.get(p, 'exploration'), 'level_note': NOTE.get(p, 'random structured search; no exhaustiveness claimed')})
    else:
        na.append({'property': p, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'See DESIGN.md. Replay any failure with: python3 run.py <ID> --replay <path>.'},
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
