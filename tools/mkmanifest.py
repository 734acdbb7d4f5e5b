"""Writes MANIFEST.json from properties.jsonl and the check modules."""
import ast
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

MODEL = (
    'Exploration: holds on the executions observed (numbers in the evidence file), nothing is '
    'proved for other inputs. Trusts the reference model in vlib/, which is written from the '
    'documentation, and pymorphy2 as installed. '
)

TECHNIQUE = {}
NOTE = {}


def module_constant(path, name):
    with open(path, encoding='utf8') as file:
        tree = ast.parse(file.read())
    for node in tree.body:
        if isinstance(node, ast.Assign) and node.targets[0].id == name:
            return ast.literal_eval(node.value)


def main():
    checks = []
    missing = []
    with open(os.path.join(VERIF, 'properties.jsonl'), encoding='utf8') as file:
        properties = [json.loads(_) for _ in file]
    for item in properties:
        id = item['id']
        path = os.path.join(VERIF, 'checks', id.lower() + '.py')
        if not os.path.exists(path):
            missing.append({'property': id, 'reason': 'check is not written yet'})
            continue
        checks.append({
            'property': id,
            'quick_cmd': './check %s --tier quick' % id,
            'thorough_cmd': './check %s --tier thorough' % id,
            'evidence_file': 'evidence/%s.json' % id,
            'technique': module_constant(path, 'TECHNIQUE') or
                'runtime monitoring: online oracle (independent reference model) over generated executions',
            'level': 'exploration',
            'level_note': MODEL + (module_constant(path, 'NOTE') or ''),
        })
    manifest = {
        'version': 1,
        'setup_cmd': 'true',
        'checks': checks,
        'not_applicable': missing,
        'notes': 'No hooks in /repo: monitors are attached from outside, checks import /repo/yargy as it is.',
    }
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w', encoding='utf8') as file:
        json.dump(manifest, file, ensure_ascii=False, indent=1)
        file.write('\n')
    print(len(checks), 'checks', [_['property'] for _ in missing])


main()
