#!/bin/bash
# planted.sh: rewrite the table of planted changes at the end of DESIGN.md from seeded/*/meta.json
cd "$(dirname "$0")/.." || exit 1
{ sed -n '/^| planted change/q;p' DESIGN.md; python3 - <<'P'
import json, glob, os
print('| planted change | property | what it breaks | caught by |\n|---|---|---|---|')
for d in sorted(glob.glob('seeded/*/')):
    m = json.load(open(d + 'meta.json'))
    print(f"| {os.path.basename(d[:-1])} | {m['property']} | {m['what_it_breaks']} | {m.get('caught_by', m['property'])} |")
P
} > out/design.tmp && mv out/design.tmp DESIGN.md
