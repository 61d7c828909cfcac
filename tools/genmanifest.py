#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that has checks/<id>.py, not_applicable for the others."""
import os, json, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'C01': 'wire-grammar extraction from the IR: size and write routines compared as automata',
    'C02': 'wire-grammar extraction from the IR: read and write routines compared as automata, with provenance of fields',
    'C03': 'path-sensitive bounds dataflow over the readers (taint from input to index, length, pointer)',
    'C04': 'path-sensitive ownership (typestate) analysis with interprocedural summaries',
    'C05': 'path-sensitive must-check dataflow (validated-before-use) over public entry points',
    'C06': 'path-sensitive error-propagation (typestate) analysis with fault forking at every failable call',
    'C07': 'cross-language declaration comparison: Python AST against clang AST',
    'C08': 'cross-language declaration comparison: Ruby AST against clang AST',
    'C09': 'path-sensitive guard dataflow over public array queries',
    'C10': 'effect analysis: attribute footprints of comparison and hash routines',
    'C11': 'path-sensitive must-have-evaluated (typestate) analysis',
    'C12': 'path-sensitive tag/payload typestate analysis',
    'C13': 'symbolic layout comparison of allocation size against carved parts',
    'C19': 'path-sensitive dataflow (abstract interpretation) of every evaluation operation per combination of operand type tags, against the operator named by the type',
    'C14': 'effect analysis over all storage of static lifetime',
    'C15': 'dataflow of constructors to (kind, operation table, data layout); completeness and routing queries with the kind fixed over every table, switch and class map that dispatches on it',
    'C16': 'path-sensitive effect analysis of the optima update',
    'C17': 'path-sensitive must-check dataflow over callback tables',
    'C18': 'path-sensitive escape analysis of caller memory',
    'C20': 'path-sensitive effect analysis: no mutation before an error return',
}
NA = {
    'C11': 'unfinished: a typestate analysis was prototyped, but it alarmed on behaviour-preserving rewrites and is not registered (DESIGN.md)',
    'C12': 'unfinished: a tag-refinement analysis could address it; none was built',
    'C20': 'unfinished: an effect-before-failure analysis could address it; none was built',
    'C21': 'the law of the samples is a statement about real-valued random variables produced by GSL at run time; no static argument over the source bounds it, a runtime statistical test would be another technique',
    'C22': 'termination of rejection sampling depends on the probability that user constraints accept a sample, a runtime quantity; the trial bound alone does not decide it',
}
NOTE = {}
try:
    exec(open(os.path.join(V, 'tools', 'notes.py')).read())
except FileNotFoundError:
    pass
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l); i = p['id']
    f = 'checks/%s.py' % i.lower()
    if os.path.exists(os.path.join(V, f)):
        checks.append(dict(property=i, quick_cmd='python3 ' + f, thorough_cmd='VERIF_TIER=thorough python3 ' + f, evidence_file='evidence/%s.json' % i,
                           technique=TECH[i], level='other',
                           level_note=NOTE.get(i, 'static analysis of the current source; every obligation of the rule is enumerated over the whole library, not sampled')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='python3 -c "import sys; sys.path.insert(0, \'lib\'); import ir; ir.build_irdump()"', checks=checks, not_applicable=na),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in na], 'not applicable')
