#!/usr/bin/env python3
import json,sys
for l in sys.stdin:
  try: d=json.loads(l)
  except Exception: print(l,end=''); continue
  v=d.pop('violations'); print({k:d[k] for k in d if k!='samples'})
  for x in v: print('  **',x['kind'],x['detail']); print(x['trace'])
