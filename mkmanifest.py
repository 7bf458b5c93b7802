#!/usr/bin/env python3
# Writes MANIFEST.json from levels.json (run by hand after editing that file)
import json
L=json.load(open('/verif/levels.json'))
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
m={'version':1,'setup_cmd':'python3 run.py --setup',
 'hooks':{'guard':'uflow_verif','enable':'the checks build /repo through harness/rustc-wrapper.sh, which passes --cfg uflow_verif (and SanitizerCoverage) to rustc for the crate uflow only',
  'source_commits':L.get('hook_commits',[])},
 'checks':[],'not_applicable':[]}
for p in props:
    i=p['id']
    if i in L:
        m['checks'].append({'property':i,'quick_cmd':'python3 run.py %s --tier quick'%i,'thorough_cmd':'python3 run.py %s --tier thorough'%i,
          'technique':L[i].get('technique','runtime monitoring of the real code under simulated time and network'),'level':L[i]['level'],
          'level_note':L[i].get('note','Held on the executions explored.')})
    else:
        m['not_applicable'].append({'property':i,'reason':'check under construction'})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
