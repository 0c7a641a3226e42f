"""Rewrites the generated sections of DESIGN.md (python3 lib/design.py): property entries and the table of planted bugs."""
import ast
import json
import os
import re
import types
import props

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def consts(pid):
    out = {}
    with open(f'{ROOT}/checks/{pid}.py', encoding='utf8') as f:
        tree = ast.parse(f.read())
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('BOUNDS', 'RULE', 'ASSUMPTIONS', 'COST'):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    doc = ast.get_docstring(tree)
    return out, doc


def main():
    path = f'{ROOT}/DESIGN.md'
    with open(path, encoding='utf8') as f:
        text = f.read()
    try:
        with open(f'{ROOT}/lib/costs.json') as f:
            cost = json.load(f)
    except OSError:
        cost = {}
    for p in props.P:               # refresh costs with what the last quick runs measured
        try:
            with open(f'{ROOT}/evidence/{p["id"]}.json') as f:
                ev = json.load(f)
            if ev['tier'] == 'quick' and ('--costs' in os.sys.argv or p['id'] not in cost):
                cost[p['id']] = [round(ev['wall_s']), ev['coverage']['states'], ev['coverage']['transitions']]
        except OSError:
            pass
    with open(f'{ROOT}/lib/costs.json', 'w') as f:
        json.dump(cost, f)
    out = []
    for p in props.P:
        c, doc = consts(p['id'])
        out.append(f'### {p["id"]} {p["title"]}\n')
        out.append(p['statement'] + '\n')
        out.append(f'* Method: {p["technique"]}.')
        out.append(f'* Enumerated: {p["quant"]}.')
        out.append(f'* Bounds: {c.get("BOUNDS", "")}.')
        out.append(f'* Oracle and unit of exploration: {c.get("RULE", doc)}.')
        if c.get('ASSUMPTIONS'):
            out.append(f'* Outside the domain: {"; ".join(c["ASSUMPTIONS"])}.')
        out.append(f'* Beyond the tests: {p["why"]}')
        if p['id'] in cost:
            out.append(f'* Cost: about {max(1, cost[p["id"]][0])} s quick ({cost[p["id"]][1]} states, {cost[p["id"]][2]} transitions).')
        out.append('')
    notes = {}
    with open(f'{ROOT}/lib/seeded_notes.txt', encoding='utf8') as f:
        for line in f:
            if '|' in line:
                k, v = line.strip().split('|', 1)
                notes[k.strip()] = v.strip()
    rows = ['| planted bug | property | needs | quick check |', '|---|---|---|---|']
    metas = []
    for d in sorted(os.listdir(f'{ROOT}/seeded')):
        with open(f'{ROOT}/seeded/{d}/meta.json', encoding='utf8') as f:
            m = json.load(f)
        metas.append((m['property'], d, m))
    for prop, d, m in sorted(metas, key=lambda x: x[:2]):
        rows.append(f'| {d} | {prop} | {m["needs"].replace("|", "/")} | {notes.get(d, "caught")} |')

    def fill(name, lines):
        nonlocal text
        body = '\n'.join(lines)
        text, n = re.subn(rf'<!-- {name} -->.*?<!-- /{name} -->', lambda _: f'<!-- {name} -->\n{body}\n<!-- /{name} -->', text, flags=re.S)
        assert n == 1, name
    fill('PROPS', out)
    fill('SEEDED', rows)
    with open(path, 'w', encoding='utf8') as f:
        f.write(text)


if __name__ == '__main__':
    main()
