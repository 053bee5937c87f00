"""Writes MANIFEST.json from the registry of checks."""
import sys, os, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'ct'))
import checks
NA = {'C29': 'the generator is a Kotlin/ANTLR program that cannot be compiled here (no Gradle, no Kotlin compiler, no network) and its templates target an older, incompatible runtime interface; no static analysis of its output against the current runtime is in reach',
}
props = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl')) if l.strip()]
cs = []
for p in props:
    if p in checks.CHECKS:
        c = checks.CHECKS[p]
        cs.append(dict(property=p, quick_cmd='python3 ct/main.py %s' % p, thorough_cmd='python3 ct/main.py %s' % p,
                       technique=c['technique'], level=c['level'], level_note=c['note']))
na = [dict(property=p, reason=NA.get(p, 'no check is registered for it yet')) for p in props if p not in checks.CHECKS]
m = dict(version=1, setup_cmd='bash tools/setup.sh', checks=cs, not_applicable=na,
         notes='All checks analyse the MIR of /repo\'s current tree (ct/ is an abstract interpreter over it); none runs code of the library. Repairs in /repo are unguarded fix: commits listed in known-findings.json; there are no hooks.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1); print(len(cs), 'checks,', len(na), 'not claimed')
