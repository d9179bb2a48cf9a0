import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
p=set(o['passed'])
miss=[t for t in b['stable'] if t not in p]
print('stable',len(b['stable']),'missing',len(miss))
for m in miss[:12]: print(' -',m)
sys.exit(1 if miss else 0)
