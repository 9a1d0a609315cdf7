#!/usr/bin/env python3
"""Writes the table of planted changes at the end of DESIGN.md."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '## Planted changes\n'
NOT_CAUGHT = {}


def main():
    path = os.path.join(ROOT, 'DESIGN.md')
    with open(path) as f:
        text = f.read().split(MARK)[0].rstrip() + '\n\n'
    rows = []
    for name in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
        with open(os.path.join(ROOT, 'seeded', name, 'meta.json')) as f:
            meta = json.load(f)
        caught = NOT_CAUGHT.get(name, meta['property'])
        rows.append('| {} | {} | {} | {} |'.format(
            name, meta['what_it_breaks'], meta['needs'], caught
        ))
    text += MARK + '''
The sources are in `tools/planted.py`; `tools/plant.py` writes them to
`seeded/`, confirms the demonstration and the existing tests with and without
each change in a scratch copy, and runs the check of the property (of others
only where noted). Found while planting: many checks were extended, because a
first version missed a change (the parts `rate` of C13, `supply` of C07,
`others` of C18, dense nodes of C23, degenerate functions of C06, constructed
states of C11, cell borders of C10, ...).

| change | breaks | needs | caught by |
|--------|--------|-------|-----------|
''' + '\n'.join(rows) + '\n'
    with open(path, 'w') as f:
        f.write(text)
    print(len(rows), 'planted changes')


if __name__ == '__main__':
    main()
