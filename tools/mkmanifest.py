#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [H, H + '/checks']
import run; sys.modules['__main__'] = run
import checks as C
props = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
NA = getattr(C, 'NOT_APPLICABLE', {})
checks = []
for p in props:
    if p in C.CHECKS and p not in NA:
        s = C.CHECKS[p]
        checks.append(dict(property=p, quick_cmd=f'python3 run.py {p} --tier quick', thorough_cmd=f'python3 run.py {p} --tier thorough', technique=s.get('technique', 'symbolic execution of the instrumented LLVM IR of the real code; claims and path feasibility decided with z3'),
                           level='other', level_note=(s.get('note') or s['bounds'])[:900]))
na = [dict(property=p, reason=NA.get(p, 'no check built yet')) for p in props if p in NA or p not in C.CHECKS]
json.dump(dict(version=1, setup_cmd='python3 run.py --setup', checks=checks, not_applicable=na), open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
