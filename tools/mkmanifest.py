#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the law files that exist."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = ('abstract interpretation of the source into value-graph terms, normal-form comparison with the '
        'specification (gate splitting, loop closed forms, inductive invariants)')
NOTE = ('static: the sources of /repo are parsed and abstracted on every run, never imported or executed; '
        'discharged obligations are equalities of normal forms over all inputs of the declared sorts (rings and '
        'polynomials by algebraic identities, loops by closed forms or induction); obligations whose normal forms '
        'differ raise an alarm only with a valuation of the two terms that separates them, otherwise they are '
        'reported as undecided')
SPECIAL = {
    'C24': ('scope resolution, import-order and may-assigned dataflow analysis',
            'whole-program analysis of every name read, import and project-module attribute; attributes of '
            'arbitrary objects are outside its scope'),
}
NA = {
    'C33': 'a probabilistic statement over challenge distributions and code distances; no sound static argument in '
           'reach bounds the acceptance probability of a far word (the query routine of the pinned tree is moreover '
           'known to be inverted, see DESIGN.md)',
    'C34': 'the pinned additive transform has no working base case and no caller (see DESIGN.md); correctness of '
           'the recursion is an algebraic identity over subspace polynomials that the term analysis cannot reach',
}
PENDING = 'no check for this property has been completed yet'


def main():
  ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
  checks, na = [], []
  for i in ids:
    law = os.path.join(ROOT, 'laws', i + '.py')
    if i in SPECIAL or (os.path.exists(law) and 'def law_' in open(law).read()):
      tech, note = SPECIAL.get(i, (TECH, NOTE))
      checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i,
                     'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
                     'technique': tech, 'level': 'other', 'level_note': note})
    else:
      na.append({'property': i, 'reason': NA.get(i, PENDING)})
  doc = {'version': 1, 'setup_cmd': "python3 -c 'import ast'", 'checks': checks, 'not_applicable': na}
  with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(doc, f, indent=1)
    f.write('\n')
  print(len(checks), 'checks;', 'not applicable:', [x['property'] for x in na])


if __name__ == '__main__':
  main()
