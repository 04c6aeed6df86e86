"""Writes MANIFEST.json from the table below (run by hand when a check is added)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'abstract interpretation of LLVM IR'
T = {
 'C01': AI + ' (inductive stream/window invariants over all block lengths)',
 'C02': AI + ' (affine bounds obligations for every load and store)',
 'C03': AI + ' (write coverage of the output region)',
 'C04': AI + ' (state after reset compared with state after construction)',
 'C05': AI + ' (extracted linear responses compared SSE against scalar)',
 'C06': AI + ' (linear-form domain: output as a fixed combination of stream samples)',
 'C07': AI + ' (delay() value against the extracted response)',
 'C08': AI + ' (extracted FIR response) and magnitude bounds with derivative-bounded frequency grids',
 'C09': AI + ' (extracted allpass structure) and magnitude bounds with derivative-bounded frequency grids',
 'C10': AI + ' of every constructor configuration',
 'C11': AI + ' of every query function on every configuration',
 'C12': 'effect analysis over the call graph of every API entry point',
 'C13': 'whole-program scan of global and static writes over LLVM IR',
 'C14': 'escape and write analysis by ' + AI,
 'C15': 'ownership typestate by ' + AI + ', compile-time copyability queries',
 'C16': AI + ' with symbolic allocator residues and element counts',
 'C17': AI + ' with symbolic bit counts',
 'C18': 'linkage rules over LLVM IR and canonical code comparison of the two build modes',
 'C19': AI + ' (allocation sizes against extracted filter length)',
 'C20': AI + ' of the zero length block from the invariant state',
 'C21': AI + ' of odd blocks from the invariant state',
 'C22': AI + ' of the ratio 1 path with symbolic length',
 'C23': AI + ' of the cascade with summarised stages and symbolic length',
 'C24': AI + ' (congruence obligations for aligned vector accesses)',
 'C25': 'reachability of assertion failures, diagnostics and aborts by ' + AI + ' of the assert-enabled build',
 'C26': AI + ' (provenance of every value read from scratch memory)',
 'C27': 'path-sensitive value numbering of the design iteration',
 'C28': AI + ' with symbolic filter orders',
 'C29': AI + ' of every entry point against the reference allpass cascade (state machine extraction, inductive over block lengths)',
 'C33': AI + ' of the unit cross compiled for 64 bit ARM (extracted linear responses, inductive invariants)',
}
NOTE = {
 'C29': 'Four classes, coefficient counts 1 to 14, generic coefficient values; each entry point is proved for every block length to iterate one linear step, whose response is compared with the reference allpass cascade over 120 steps, and the steps of all entry points are compared on every live state word. Real arithmetic, tolerance 1e-5.',
 'C33': 'Every constructor configuration and every FIR stage of the aarch64 build, compiled with the NEON intrinsics header of clang against the installed library headers (two shims in drv/arm replace word size headers); invariants proved inductively over all block lengths, as for the x86 build. Real arithmetic; fused multiply-add counts as multiply and add.',
 'C12': 'Every function reachable from process_block, reset, the queries (both assert modes), with no reachable allocation, lock, throw or I/O other than the documented diagnostics; trusts the effect table for libc/libstdc++ functions.',
 'C13': 'Every function of the library and header-only translation units; trusts that code outside the repository (libm, operator new) keeps no relevant global state.',
 'C18': 'Linkage of all symbols of the header-only unit in two configurations, undefined symbols of the library, and canonical equality of each function in the two modes; a non-equal pair is decided by re-analysing the library module.',
 'C27': 'All paths of the design iteration with loops cut at an arbitrary iteration; floating point comparisons are treated as real ones (no NaN); the design mathematics itself is not proved (C34).',
 'C28': 'All rounded orders within +-2^24 and all counts up to 256; trusts that the functions on numbers touch no memory, which is checked on the IR.',
}
GEN = ('Sound over all block lengths up to 2^28 units and all histories within the analysed configurations when the evidence reports 0 undecided obligations: invariants are guessed and then verified inductively on clang -O1 IR. '
       'Float arithmetic is interpreted over the reals. An obligation the domain cannot decide is reported as undecided, and alarms are only raised when abstract execution of a concrete history confirms them. '
       'Trusts clang as front end, the interpreter in pa/ and the size of the analysed configuration set (every mode, ratio, precision, SSE, filter combination).')
NA = {
 'C30': 'A bound of accumulated float rounding below -144 dB for every input needs a floating point error analysis of 50-tap convolutions and recursive allpass cascades; worst case static bounds are orders of magnitude above the noise floor the level names, so no sound static argument decides it.',
 'C31': 'Execution time depends on the processor and the workload; no static analysis of the source decides it.',
 'C32': 'Whether denormals occur and how long they last depends on run time values and processor flags (FTZ/DAZ) set outside the library.',
 'C34': 'The design formulas are transcendental series of the requested specification; deciding the resulting filter for every real specification is beyond any static domain in reach (C09 decides the tables actually used).',
}
checks = [{'property': p, 'quick_cmd': 'python3 pa/check.py %s --quick' % p, 'thorough_cmd': 'python3 pa/check.py %s --thorough' % p, 'technique': T[p],
           'level': 'proof', 'level_note': NOTE.get(p, GEN)} for p in sorted(T)]
m = {'version': 1, 'setup_cmd': 'python3 pa/setup.py', 'checks': checks, 'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(NA.items())],
     'notes': 'No hooks in /repo. Known findings and repairs: known_findings.txt.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
assert sorted(ids) == sorted(list(T) + list(NA)), set(ids) ^ set(list(T) + list(NA))
