"""Writes MANIFEST.json. Development tool."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = 'Trusts the reference model in cpp/model.hpp, the generators, g++ 14 and the x86-64 host.'
PBT = 'property-based testing: generated schemas compiled against the tree, generated cases judged by '
T = {
    'C01': ('exploration', PBT + 'write/read/write round trips', 'Round trips over seeded schemas and values; bounded by the cases run.'),
    'C02': ('exploration', PBT + 'a reference encoder', 'Every byte written compared with an independent encoder.'),
    'C03': ('exploration', PBT + 'a reference decoder', 'Every value and the final position compared with an independent decoder.'),
    'C04': ('exploration', PBT + 'a metamorphic relation between the two byte orders', 'Mirror relation checked per scalar leaf; float elements exist in little endian only.'),
    'C05': ('fault_enumeration', PBT + 'enumeration of every cut of each generated wire', 'Every cut of each generated wire; wires are sampled.'),
    'C06': ('exploration', PBT + 'a reference model, with full sweeps of small scalar domains', 'All values of 8-bit (and boundary values of wider) constrained scalars; others sampled.'),
    'C07': ('exploration', PBT + 'a reference model over objects with a past', 'Wires, objects and histories sampled.'),
    'C08': ('exploration', PBT + 'a reference model, with container sizes around slot limits', 'Sizes around every slot limit up to 16 bits; wider slots sampled.'),
    'C09': ('exploration', PBT + 'a reference model', 'Perturbed objects sampled.'),
    'C10': ('exploration', PBT + 'a reference model, with sweeps of discriminants', 'Small discriminants swept completely; objects sampled.'),
    'C11': ('exploration', PBT + 'a reference model', 'Wires and objects sampled.'),
    'C12': ('exploration', PBT + 'a reference model and an allocation monitor, under three build-wide defaults', 'Lengths at, around and far past each ceiling; largest single allocation monitored.'),
    'C13': ('fault_enumeration', PBT + 'enumeration of every refusal point of the output stream', 'Every refusal point of each generated write up to 160 bytes, every n-th beyond; values sampled.'),
    'C14': ('exploration', PBT + 'a reference model', 'Wires and objects with up to three faults sampled.'),
    'C15': ('exploration', 'fuzzing with generated schemas and bytes under AddressSanitizer, UndefinedBehaviorSanitizer and valgrind memcheck, and a reference model', 'What the sanitizers and memcheck can see, on the cases run.'),
    'C16': ('exploration', PBT + 'a differential between six kinds of stream', 'Stream kinds: std string, file and custom-buffer streams, byte streams with and without partial transfers, constexpr stream.'),
    'C17': ('exploration', 'property-based testing: generated cases as static_assert, against the model and the same cast at run time', 'Schemas g++ 14 can evaluate at compile time; cases sampled.'),
    'C18': ('exploration', 'property-based testing: single mistakes put into generated schemas, judged by whether the compiler accepts them', 'Every kind of mistake in every kind of place; instances sampled.'),
    'C19': ('exploration', PBT + 'an access policy derived from the schema, and isolation of assignments', 'All fields of each sampled schema.'),
    'C20': ('exploration', PBT + 'a differential between two spellings of one schema', 'Pairs of spellings sampled.'),
    'C21': ('exploration', 'stateful property-based testing: random histories of casts, assignments and copies against a reference model', 'Histories of up to nine steps sampled.'),
    'C22': ('exploration', PBT + 'metamorphic repetition: fresh, copied and reused objects', 'Values and pasts sampled.'),
    'C23': ('exploration', 'property-based testing: the single header against the model and the headers, and generated include trees against the preprocessor', 'Schemas and trees sampled.'),
    'C24': ('exploration', PBT + 'a metamorphic relation between a nested record and the same record alone', 'Nested schemas up to depth four sampled.'),
    'C25': ('exploration', 'property-based testing: generated casts run in threads and inside one another\'s streams, judged by what each gives alone, also under ThreadSanitizer', 'Schedules are those the host produced; nesting points are enumerated up to a bound; no schedule is replayed exactly.'),
}
checks = []
for p in sorted(T):
    lvl, tech, note = T[p]
    checks.append(dict(property=p, quick_cmd='python3 run.py %s --tier quick' % p, thorough_cmd='python3 run.py %s --tier thorough' % p,
                       evidence_file='evidence/%s.json' % p, technique=tech, level=lvl, level_note=note + ' ' + TRUST))
m = dict(version=1, setup_cmd='python3 lib/setup.py', checks=checks, not_applicable=[],
         notes='No hooks in /repo. Checks compile generated schemas against /repo/include (or the single header, where that is what changed). '
               'Replay a violation with: python3 run.py <ID> --replay <path>.')
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
