#!/usr/bin/env python3
"""claim.py ID technique note: claim a property in checks.json and drop it from na.json"""
import json,sys,subprocess
i,t,n=sys.argv[1:4]
c=json.load(open('/verif/checks.json')); c[i]=[t,n]
open('/verif/checks.json','w').write('{\n'+',\n'.join(f'{json.dumps(k)}: {json.dumps(c[k])}' for k in sorted(c))+'\n}\n')
a=json.load(open('/verif/na.json')); a.pop(i,None); json.dump(a,open('/verif/na.json','w'),indent=0,ensure_ascii=False)
subprocess.run(['python3','/verif/gen_manifest.py'],check=True)
