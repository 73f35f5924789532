#!/usr/bin/env python3
"""note.py ID ORACLE COST: set the property's row of the DESIGN.md table."""
import json,sys
p='/verif/tools/design_notes.json'; d=json.load(open(p)); s=d.pop('seeded'); d[sys.argv[1]]={'oracle':sys.argv[2],'cost':sys.argv[3]}; d=dict(sorted(d.items())); d['seeded']=s
open(p,'w').write(json.dumps(d,indent=1,ensure_ascii=False)+'\n')
