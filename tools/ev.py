import json,sys
for p in sys.argv[1:]:
    e=json.load(open(f'/verif/evidence/{p}.json'))
    for x in e['coverage']['entries']: print(f"  {x['entry']:24} complete={x['complete']} {x['why_incomplete']} st={x['states']} paths={x['paths']} q={x['queries']} {x['wall_s']}s cov={x['coverage_query']} nat={x['native_traces']} reach={x['reached']} {x['unsupported'] or ''} pre={x['context_switch_bound']}")
