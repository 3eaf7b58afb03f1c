"""Writes MANIFEST.json from the table below (run after adding a check)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'vc'))
from props import PROPS
BASE = ('Every obligation generated from the current source by the contracts in contracts/*.spec is discharged by z3 for all inputs and all iterations, function by function, '
        'callers against callee contracts; lemma groups connect the contracts to the property. Trusted: go/ssa, the Go toolchain, the verification condition generator in vc/ ')
ASM = '(including its semantics of the x86-64 instructions in the .s files), '
NOTE = dict(
 C13='386 and arm64 are verified; the SSA form of every other architecture is compared with one of these two and verified by itself if it differs.',
 C12='CPU feature flags are arbitrary booleans; instructions are mapped to the extensions they need by a table in vc/asm.py.',
 C11='The table initialisers are executed from source; the statements about them are checked for all 256 control bytes.',
 C17='Frame and freshness obligations of every function; the absence of data races follows from them (nothing shared is ever written).',
 C14='The generators are run on the current source; the emitted assembly and tables are verified against the same contracts as the committed ones.',
 C15='encoding/binary PutUvarint and Uvarint are executed from the standard library source.',
 C16='math/rand is a source of arbitrary values of its documented range; sort.Slice is trusted to order by the given comparison.',
 C21='The tool is executed symbolically for every README with the section and every list of input lines; the text of the lines read so far is ghost state of the Scanner contract, and loop invariants relate the program state to it (vc/content.py).',
 C20='The tool is executed symbolically for every README with the section, every input and every combination of system call failures; bytes, strings, bufio, io, os, flag are used by the contracts in vc/text.py; loops are cut with inferred invariants.',
)
NA = json.load(open(os.path.join(ROOT, 'tools', 'not_applicable.json')))
checks = []
for pid in sorted(PROPS):
    asm = pid not in ('C08', 'C11', 'C13', 'C15', 'C16', 'C20', 'C21')
    checks.append(dict(property=pid, quick_cmd='python3-vt vc/check.py %s --tier quick' % pid, thorough_cmd='python3-vt vc/check.py %s --tier thorough' % pid,
        technique='contract-based deductive verification (VC generation from Go SSA and Go assembly, z3)', level='proof',
        level_note=BASE + (ASM if asm else '') + 'z3, and what the evidence file lists. ' + NOTE.get(pid, '')))
m = dict(version=1, setup_cmd='true', checks=checks,
         not_applicable=[dict(property=p, reason=r) for p, r in sorted(NA.items()) if p not in PROPS],
         notes='No hooks in /repo: contracts live in /verif/contracts and are attached to the functions by name. Repairs of genuine defects are the fix: commits listed in known_findings.txt.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
