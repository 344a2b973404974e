import json,sys
d=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))['coverage']
for k,v in d['per_test'].items(): print('%-28s eval %-7d nt %-7d worst %.3g'%(k,v['evaluations'],v['nontrivial'],v['worst_error_over_tolerance']))
if len(sys.argv)>2: print(d['labels'])
