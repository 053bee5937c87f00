"""tools/fixed.py <property> <commit> <what>: record a repaired defect"""
import sys, json, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known-findings.json')
d = json.load(open(p)); d.append(dict(status='fixed', property=sys.argv[1], what='fixed: property=%s %s %s' % tuple(sys.argv[1:4])))
json.dump(d, open(p, 'w'), indent=1); open(p, 'a').write('\n')
