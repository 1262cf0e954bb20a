"""Writes the table of checks between the markers in DESIGN.md (bounds from the modules, costs from COSTS)."""
import glob
import importlib
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = {
    'C01': 'exact rational arithmetic: minimum over all periodic images',
    'C02': 'exact rational arithmetic; set of admissible images',
    'C03': 'brute force over all stored positions with exact distances',
    'C04': 'list of all added results, classified by the documented rule',
    'C05': 'log of all evaluations of the potential',
    'C06': 'nondeterministic reference Nelder-Mead machine in lockstep (`mc/nm.py`)',
    'C07': 'two-stage reference machine in lockstep',
    'C08': 'reference scheduler in lockstep (`mc/search_world.py`), settled states',
    'C09': 'invariants on the end state of every execution, from the logged evaluations',
    'C10': 'reference rules on the state known at each decision',
    'C11': 'set of what was finished / open at each save point; state `needs_saving` after every change',
    'C12': 'recorded sequence of complete states; directory listings',
    'C13': 'deep comparison of all attributes, byte-independent (`mc/compare.py`)',
    'C14': 'reference start state from file / argument / mesh',
    'C15': 'result of the asynchronous function; the exception raised; a deadline',
    'C16': 'regular grid computed with rational numbers',
    'C17': 'geometric definition (volumes, distances, directions); evaluated simplices',
    'C18': 'union-find on exact distances',
    'C19': 'exact rank (fractions) of the unwrapped positions; construction of the patches',
    'C20': 'exact neighbour graph',
    'C21': 'the shape by construction',
    'C22': 'bookkeeping of positions; exact mean of unwrapped positions',
    'C23': 'deep comparison of all attributes',
    'C24': 'expected markers and edges against the artists on the axes',
    'C25': 'links, positions and colours against the artists on the axes',
    'C26': 'lists and sets; breadth-first search with merged states',
    'C27': 'one reference model per search; the same search alone; no evaluation open after the end',
}


def main():
    costs = json.load(open(os.path.join(HERE, 'tools/costs.json')))
    lines = ['| check | level | enumerated (quick) | thorough adds | oracle | s quick / thorough |', '|---|---|---|---|---|---|']
    for path in sorted(glob.glob(os.path.join(HERE, 'mc/checks/c[0-9]*.py'))):
        m = importlib.import_module('mc.checks.' + os.path.basename(path)[:-3])
        lines.append('| {} | {} | {} | {} | {} | {} / {} |'.format(
            m.ID, m.LEVEL.replace('_', ' '), m.BOUNDS['quick'], m.BOUNDS['thorough'], ORACLE[m.ID], *costs[m.ID]))
    design = os.path.join(HERE, 'DESIGN.md')
    text = open(design).read()
    text = re.sub(r'(<!-- table -->\n).*?(<!-- end table -->)', lambda x: x.group(1) + '\n'.join(lines) + '\n' + x.group(2), text, flags=re.S)
    open(design, 'w').write(text)


main()
