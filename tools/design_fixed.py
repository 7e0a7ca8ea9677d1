# prints the table of repaired defects and open findings for DESIGN.md from known_findings.json
import json
d = json.load(open('/verif/known_findings.json'))
print('| property | commit | what failed |\n|---|---|---|')
for x in sorted(d, key=lambda x: x['property']):
    if x['status'] == 'fixed':
        w = x['what'].split(' ', 3)[3].replace('|', '\\|')
        print(f"| {x['property']} | {x['commit']} | {w} |")
