"""Writes DESIGN.md: tools/design_head.md, then per property what its harnesses cover, then which check catches what."""
import glob
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks import loadProperty     # noqa: E402

ORACLE = json.load(open(os.path.join(ROOT, 'tools', 'oracles.json'), encoding='utf-8'))
CAUGHT = json.load(open(os.path.join(ROOT, 'tools', 'caught.json'), encoding='utf-8'))


def main():
    out = [open(os.path.join(ROOT, 'tools', 'design_head.md'), encoding='utf-8').read()]
    out.append('## The properties\n')
    for line in open(os.path.join(ROOT, 'properties.jsonl'), encoding='utf-8'):
        prop = json.loads(line)
        ident = prop['id']
        out.append(f'### {ident} {prop["title"]}\n')
        out.append(prop['statement'] + '\n')
        info = ORACLE.get(ident, {})
        out.append(f'*Oracle:* {info.get("oracle", "")} *Cost (quick, 8 cores):* about {info.get("cost", "?")} s.\n')
        out.append(f'*Why the tests cannot settle it:* {prop.get('why_tests_cant') or ""}\n'
                   if prop.get('why_tests_cannot') else '')
        out.append('*Harnesses and bounds:*\n')
        for name, har in loadProperty(ident).items():
            out.append(f'* `{name}` ({len(har.cases["quick"])} cases quick, {len(har.cases["thorough"])} thorough): {har.bounds}')
        assume = getattr(sys.modules[f'checks.{ident}'], 'ASSUMPTIONS', [])
        out.append('\n*Assumptions:* ' + '; '.join(assume) + '.\n')
    out.append('## Planted bugs and what catches them\n')
    out.append('Each directory of `seeded/` holds a change that compiles, passes the existing tests and breaks the property '
               'named in its `meta.json`. In the table, "first" says whether the check of that property caught it as it then was.\n')
    out.append('| planted bug | property | caught by | first | what was strengthened |\n|---|---|---|---|---|')
    for path in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
        ident = os.path.basename(os.path.dirname(path))
        meta = json.load(open(path, encoding='utf-8'))
        row = CAUGHT.get(ident, {})
        out.append(f'| {ident} | {meta["property"]} | {row.get("by", meta["property"])} | {row.get("first", "yes")} | '
                   f'{row.get("note", "")} |')
    out.append('')
    tail = os.path.join(ROOT, 'tools', 'design_tail.md')
    if os.path.exists(tail):
        out.append(open(tail, encoding='utf-8').read())
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w', encoding='utf-8') as fil:
        fil.write('\n'.join(o for o in out if o is not None))


main()
