"""`python3 lib/manifest.py` rewrites MANIFEST.json from the plan."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan, props
def main():
    cs = []
    for p in [x['id'] for x in props.P]:
        if p not in plan.PLAN: continue
        d = plan.PLAN[p]
        cs.append(dict(property=p, quick_cmd='python3 check.py %s quick' % p, thorough_cmd='python3 check.py %s thorough' % p, evidence_file='evidence/%s.json' % p,
                       technique=d.get('technique', plan.TECHNIQUE), level='model_checking', level_note=d.get('note', plan.NOTE)))
    m = dict(version=1, setup_cmd='python3 check.py setup', checks=cs, not_applicable=[dict(property=x['id'], reason=plan.NA[x['id']]) for x in props.P if x['id'] not in plan.PLAN],
             notes='No hooks: what the tool does is observed by compiling and executing the code it generates against a recording stand-in for pybind11 (mock/). Known findings and repaired defects: KNOWN_FINDINGS.txt.')
    with open(os.path.join(plan.ROOT, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
if __name__ == '__main__': main()
