#!/usr/bin/env python3
"""Rewrite the section "Planted bugs" at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(root, 'DESIGN.md')
s = open(p).read()
mark = '\n## Planted bugs\n'
if mark in s:
    s = s[:s.index(mark)]
FIRST_MISSED = {
    'C13-complex-factor': 'complex matrices in SVDDecomposition without singular values returned',
    'C19-self-loop': 'drawings of networks with self-linked tensors',
    'C03-tag-split': 'leg names with several dashes',
    'C12-complex-random': 'element types other than float64 without data',
    'C13-isometry-eps': 'tolerances other than the usual one',
    'C04-matrix-alias': 'what a read returns is written into by the harness',
}
out = [mark, """
Each was written from the property and the code, confirmed in a scratch copy by `tools/plant.py` (builds, stable tests pass,
demonstration fails only with the change, original lines) and is caught by the quick check of its own property. Besides
these, about 240 hand-written changes and several hundred mechanical mutants (operators, constants, conditions, deleted
statements, defaults) that survive the tests were run against the checks; those missed at first and not equivalent led to
the coverage named below and to: reads repeated around a write, strong couplings, leg names with blanks, other units,
exchanged names, kinds of containers, spoiled arguments.

| planted bug | manifests with | what breaks | first missed; then added |
|---|---|---|---|
"""]
for d in sorted(os.listdir(os.path.join(root, 'seeded'))):
    m = json.load(open(os.path.join(root, 'seeded', d, 'meta.json')))
    out.append('| %s | %s | %s | %s |\n' % (d, m['needs'], m['what_it_breaks'], FIRST_MISSED.get(d, '')))
open(p, 'w').write(s.rstrip('\n') + '\n' + ''.join(out))
