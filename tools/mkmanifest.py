#!/usr/bin/env python3
# Writes MANIFEST.json from the list of checks that exist; the others go to not_applicable.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl') if l.strip()]
T = {
 'C01': ('property-based differential testing of generated operator programs against a reference semantics', 'Random search over operators x operand sources x consumers x boundary-heavy operand values; x86-64 back end only.'),
 'C02': ('property-based differential testing: random structured programs against a reference interpreter', 'Random search over generated valid functions; trap-free executions only.'),
 'C03': ('property-based differential testing: random memory programs, byte-for-byte memory comparison with a model', 'Random search; memories of at most 64 pages except in the sparse large-memory family.'),
 'C04': ('stateful model-based testing of globals, tables and references over linked modules', 'Random search over programs and host writes; whole tables and globals compared after each step.'),
 'C05': ('property-based testing of generated signatures and call chains with guard bytes and a layout model', 'Random search over signatures, call kinds and stack offsets.'),
 'C06': ('metamorphic testing: the same generated program under every configuration, and against the model', 'Random search over programs; all 8 flag combinations per program.'),
 'C07': ('metamorphic and round-trip testing of random legal encodings against the module model', 'Random search over modules and encodings.'),
 'C08': ('fault injection into generated valid modules under AddressSanitizer, checked between good modules', 'Random search over modules x injected unsupported or unresolvable feature x position.'),
 'C09': ('stateful model-based testing of namespace histories', 'Random search over operation histories.'),
 'C10': ('stateful testing of resource lifecycles under AddressSanitizer and LeakSanitizer', 'Random search over release orders and histories.'),
 'C11': ('model-based testing of builtins called from generated modules', 'Random search over arguments and call shapes.'),
 'C12': ('metamorphic testing: interleaved instances and threads against solo runs', 'Random search over interleavings and thread schedules.'),
 'C13': ('differential fuzzing of generated LIR programs against a reference evaluator', 'Random search over LIR instruction sequences; x86-64 back end only.'),
 'C14': ('metamorphic fuzzing: serialised compilation against the uninterrupted one', 'Random search over LIR programs and cut points.'),
 'C15': ('stateful model-based testing of the executable allocator', 'Random search over allocation histories.'),
 'C16': ('differential fuzzing of patterns and subjects against a brute-force matcher', 'Random search over patterns, subjects and chunkings.'),
 'C17': ('property-based testing of generated foreign signatures and values', 'Random search over signatures and values.'),
 'C18': ('stateful property-based testing against a recording stand-in and a model of WASI memory layout', 'Random search over calls, values and load/unload histories; the WASI library is replaced by a stand-in that records its arguments.'),
 'C20': ('stateful model-based testing of sljit stacks and compilers with refused allocations and dropped pages', 'Random search over histories, programs and refusal points; the allocator is replaced at the SLJIT_MALLOC hook sljit provides, mmap and madvise by stand-ins.'),
 'C19': ('differential fuzzing of generated vector and atomic LIR programs against a byte-level model', 'Random search over instruction sequences and thread schedules; x86-64 back end of the CPU it runs on only.'),
}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(f'{V}/checks/{i}.cpp'):
        checks.append({'property': i, 'quick_cmd': f'./run.sh {i}', 'thorough_cmd': f'VERIF_TIER=thorough ./run.sh {i}', 'technique': T[i][0], 'level': 'exploration', 'level_note': T[i][1]})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
