#!/usr/bin/env python3
"""Writes known_findings.json from the fix commits of /repo and the list of open findings."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {'882e10a': 'C01', 'e165752': 'C02', '792a0a7': 'C09', 'd7c95c5': 'C05', 'a919696': 'C05', 'c9ce295': 'C02', '9c0b6ba': 'C07', 'b03d538': 'C09', 'e91dfb5': 'C36',
       'd52b4d8': 'C07', '71cfe90': 'C14', 'f001a23': 'C08', 'ffcbcda': 'C16', 'f041d14': 'C16', '7a8f4fc': 'C08', '74853ea': 'C18', 'a7e121f': 'C31', '0be485c': 'C28', 'ccdf153': 'C28',
       '84f5d96': 'C32', 'a47b781': 'C29', '1e9a6be': 'C29', '377c881': 'C35', 'f2f0254': 'C25', '6e526d7': 'C25', '7884e24': 'C26', '44fa6ce': 'C25', '0383947': 'C37', '1351328': 'C25',
       '925bcee': 'C34', '550b4d9': 'C34', 'b55a0cd': 'C34', '511deee': 'C36', 'f0252ef': 'C36', 'd5cc92c': 'C09', '0522248': 'C09', 'f7bd462': 'C17', 'a9b2084': 'C15'}
OPEN = json.load(open(os.path.join(HERE, 'dev', 'open_findings.json')))
out = []
for line in subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines():
    h, _, s = line.partition(' ')
    if s.startswith('fix: '):
        out.append('fixed: property=%s %s %s' % (MAP[h], h, s[5:]))
json.dump(dict(findings=OPEN, fixed=out), open(os.path.join(HERE, 'known_findings.json'), 'w'), indent=1)
