import json,sys
j=json.load(open(sys.argv[1]+'/scenario.json'))
print(j['what']); print(json.dumps(j.get('observed'),ensure_ascii=False)[:3000]); print(json.dumps(j.get('expected'),ensure_ascii=False)[:3000])
