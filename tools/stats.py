#!/usr/bin/env python3
"""table of what the checks last covered, from evidence/ (for DESIGN.md)"""
import json, glob, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
print('| property | scenarios | obligations | back ends | solver s | wall s | functions under contract | bounded runs |\n|---|---|---|---|---|---|---|---|')
for i in range(1, 27):
    try: e = json.load(open(f'evidence/P{i:02}.json'))
    except OSError: continue
    c = e['coverage']
    print(f"| P{i:02} | {len(c['scenarios'])} | {c['discharged']}/{c['obligations']} | {', '.join(f'{k} {v}' for k, v in sorted(c['by_backend'].items()))} | {c['solver_seconds']} | {e['wall_s']} | {len(c['functions_under_contract'])} | {c['bounded_cross_check']['runs'] if isinstance(c['bounded_cross_check'], dict) else 0} |")
fs = set()
for f in glob.glob('evidence/P*.json'): fs |= set(json.load(open(f))['coverage']['functions_under_contract'])
print(len(fs), 'functions under contract')
