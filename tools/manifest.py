import json, sys
sys.path.insert(0, '/verif')
from suites import SUITES
import jsonschema
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
NOTES = {}
try:
    from tools.notes import NOTES
except ImportError:
    pass
for p in props:
    i = p['id']
    if i in SUITES:
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
            technique=SUITES[i].get('technique', 'TLA+ specification checked with TLC, bound by trace validation of recorded executions' + (' and replay of TLC-generated behaviours' if SUITES[i].get('models') else '')),
            level='model_checking', level_note=SUITES[i].get('note', 'Exhaustive only within the model bounds; the code is bound by the recorded and replayed executions of each run. Trusts TLC, the Java primitives and the recorder.')))
    else:
        na.append(dict(property=i, reason='not claimed yet: its specification is still being written'))
m = dict(version=1, setup_cmd="python3 check.py --setup", hooks=dict(guard="none", enable="no hooks: everything is observed through the exported API", source_commits=[]), checks=checks, not_applicable=na)
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
