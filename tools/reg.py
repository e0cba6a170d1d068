"""Small helpers to extend checks.py, claims.json and known_findings.json."""
import json,sys
def checks(txt):
    p='/verif/tools/checks.py'; s=open(p).read(); s=s.replace("\nif __name__","\n"+txt.strip()+"\n\nif __name__",1); open(p,'w').write(s)
def claim(*ids):
    p='/verif/tools/claims.json'; d=json.load(open(p)); d['claimed']=sorted(set(d['claimed'])|set(ids)); json.dump(d,open(p,'w'))
def fixed(*l):
    p='/verif/known_findings.json'; d=json.load(open(p)); d['fixed']+=[x for x in l if x not in d['fixed']]; json.dump(d,open(p,'w'),indent=1)
def known(**k):
    p='/verif/known_findings.json'; d=json.load(open(p)); d['known']=[x for x in d['known'] if x['id']!=k['id']]+[k]; json.dump(d,open(p,'w'),indent=1)
