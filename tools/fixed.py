#!/usr/bin/env python3
"""fixed.py PROP COMMIT TEXT — record a repaired defect."""
import json,sys,glob
p=glob.glob('/verif/known_findings*.json')[0]
d=json.load(open(p))
d['fixed'].append('fixed: property=%s %s %s'%tuple(sys.argv[1:4]))
json.dump(d,open(p,'w'),indent=1,ensure_ascii=False)
