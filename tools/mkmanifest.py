#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {'C26': 'Not decidable within this family here: a stack is exhausted only by tens of thousands of levels of nesting, each of which takes input bytes or a type definition, while a path of the executor has at most 128 symbolic bytes and some hundreds of stack frames; and the size of a native stack frame is decided after the LLVM bitcode that is executed. (Recursion in the code is not limited in any way, see DESIGN.md.)'}
NOTE = 'Holds for every input within the bounds printed per harness in the evidence (sizes of inputs, shapes of types, targets); every path was explored to its end and each branch decided by Z3. Trusted: rustc and LLVM up to the bitcode, the executor (checked by replaying sampled paths natively and by a self-test), Z3 (a sample of queries is put to two other solvers).'
EXTRA = {
    'C02': ' Work is counted in executed LLVM instructions and memory in bytes requested from the allocator. One known finding (items that take no bytes).',
    'C04': ' The reference is parity-scale-codec with the registry of scale-info, themselves executed symbolically in the same program.',
    'C20': ' The reference for positions is a second, independent reading of the target and type shapes (harness/src/conv.rs).',
}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 check.py --setup',
    checks=[dict(property=p['id'], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p['id']}",
                 technique='symbolic execution of the LLVM bitcode compiled from /repo, branches and assertions decided by Z3, counterexamples replayed natively',
                 level='model_checking', level_note=NOTE + EXTRA.get(p['id'], '')) for p in props if p['id'] not in NA],
    not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
    notes='No hooks in /repo: the harnesses use its public interface. See DESIGN.md.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
