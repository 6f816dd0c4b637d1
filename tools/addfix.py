"""addfix.py PROPERTY 'part of the commit message' 'what failed'"""
import json
import subprocess
import sys
k = json.load(open('/verif/known_findings.json'))
h = [x.split(' ', 1)[0] for x in subprocess.check_output(['git', '-C', '/repo', 'log', '--oneline'], text=True).splitlines() if sys.argv[2] in x]
assert len(h) == 1, h
k['fixed'].append("fixed: property=%s %s %s" % (sys.argv[1], h[0], sys.argv[3]))
json.dump(k, open('/verif/known_findings.json', 'w'), indent=1)
open('/verif/known_findings.json', 'a').write('\n')
