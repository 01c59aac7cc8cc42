import json,sys
for l in open('/verif/properties.jsonl'):
    p=json.loads(l)
    if p['id'] in sys.argv[1:]: print(p['id'],p['statement'],'\n  Q:',p['quantifier']['text'])
