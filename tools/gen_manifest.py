"""Writes /verif/MANIFEST.json from the check modules which exist."""
import ast
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
CHECKS = os.path.join(ROOT, 'harness', 'checks')


def constants(path):
    res = {}
    with open(path) as f:
        tree = ast.parse(f.read())
    for node in tree.body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1:
            try:
                res[node.targets[0].id] = ast.literal_eval(node.value)
            except (ValueError, AttributeError):
                pass
    return res


def main():
    with open(os.path.join(ROOT, 'properties.jsonl')) as f:
        props = [json.loads(line) for line in f]
    modules = {}
    for name in sorted(os.listdir(CHECKS)):
        if name.startswith('c') and name.endswith('.py'):
            const = constants(os.path.join(CHECKS, name))
            modules[const['ID']] = const
    checks, missing = [], []
    for prop in props:
        pid = prop['id']
        if pid in modules:
            const = modules[pid]
            checks.append(dict(
                property=pid,
                quick_cmd='./check {}'.format(pid),
                thorough_cmd='./check {} --tier thorough'.format(pid),
                evidence_file='evidence/{}.json'.format(pid),
                technique=const['TECHNIQUE'],
                level=const['LEVEL'],
                level_note=const['NOTE'],
            ))
        else:
            missing.append(dict(
                property=pid, reason='The check is not built yet.'
            ))
    res = dict(
        version=1,
        setup_cmd='./check --selftest',
        checks=checks,
        not_applicable=missing,
        notes='All checks import nodefinder from the working tree of /repo; '
        'there are no hooks in /repo. See DESIGN.md.'
    )
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(res, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks,', len(missing), 'missing')


main()
