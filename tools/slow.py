"""slowest cases of a check, from its evidence"""
import json, sys
d = json.load(open('/verif/evidence/%s.json' % sys.argv[1]))
pc = d['coverage'].get('per_case') or []
for r in sorted(pc, key=lambda r: -r['wall_s'])[:int(sys.argv[2]) if len(
        sys.argv) > 2 else 12]:
    print(r)
