import json,sys
for i in sys.argv[1:]:
    c=json.load(open(f'/verif/evidence/{i}.json'))['coverage']
    print(i,c['evaluations'],c['distinct_nontrivial'],c.get('discarded'))
    for k,v in c['facets'].items(): print('  ',k,v['evaluations'],v['nontrivial'],v['discarded'],json.dumps(v['labels'],ensure_ascii=False))
