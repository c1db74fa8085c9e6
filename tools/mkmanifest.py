#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = ('TLA+ specification (spec/MshIO.tla) model-checked with TLC; every behaviour TLC explores is replayed into the real library '
        '(conformance vectors) and compared with the state the specification reaches')
TRACES = '; recorded executions of the library are checked against the specification with TLC (spec/TraceMsh.tla)'
EXTRA = {
    'C03': '; the bytes the library writes are matched token by token against the token sequence the specification writes',
    'C11': '; specification with damage actions; verdict per token boundary refined to every byte of the concrete file',
    'C13': '; IsValid of the specification compared with validate_spec on every perturbed description',
    'C14': '; specification with device-failure actions, refined to every byte at which a device can fail',
    'C15': '; specification of call histories (Calls.tla) and of two clients under every interleaving (MCPar.tla), replayed with gated streams',
    'C17': '; the element table is part of the specification; queries compared for every code in range and sampled beyond',
    'C19': '; specification of the objects Python shares with C++ (PyMsh.tla): every sequence of assignments from both sides is replayed into the '
           'module, compiled from python/pymshio.cpp against a stand-in for nanobind',
    'C20': '; specification of a call in a changing environment (Settings.tla): every way through a call, with every locale and every change of it at '
           'every read or write, is replayed',
}
NOTE = ('Exhaustive within the families of spec/Families.tla and spec/Files.tla (TLC, all reachable states); the implementation is bound by '
        'replaying every vector and by checking recorded executions, so its conformance is established on those vectors times a few value '
        'concretisations, not for unbounded inputs.')
NOTES = {
    'C19': NOTE + ' nanobind itself is not available here: a stand-in that records the bindings runs them, so nanobind\'s own conversions are not covered.',
    'C20': NOTE + ' Locales are custom numeric facets and one system locale made with localedef (only C and POSIX are installed).',
}
NOT_TRACED = ('C14', 'C15', 'C17', 'C19')
NOT_APPLICABLE = []


def main():
    ids = [json.loads(x)['id'] for x in open(os.path.join(ROOT, 'properties.jsonl'))]
    skip = {x['property'] for x in NOT_APPLICABLE}
    m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': NOT_APPLICABLE}
    for i in ids:
        if i not in skip:
            m['checks'].append({
                'property': i,
                'quick_cmd': 'python3 tools/check.py %s --tier quick' % i,
                'thorough_cmd': 'python3 tools/check.py %s --tier thorough' % i,
                'technique': BASE + EXTRA.get(i, '') + ('' if i in NOT_TRACED else TRACES),
                'level': 'model_checking',
                'level_note': NOTES.get(i, NOTE)})
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
