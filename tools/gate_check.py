"""Compares golden/C04.tsv with the versions in the header spec (review aid, not a check)."""
import re,sys
V=['Version_1_0','Version_1_2','Version_1_40','Version_2_05','Version_2_10','Version_2_21','Version_2_22','Version_2_5','Version_2_6','R9','R10','R11','R12','R13','R14','R2000','R2004','R2007','R2010','R2013','R2018']
spec={}
for m in re.finditer(r'<Variable ([^>]*)>',open('/repo/spec/HeaderVariablesSpec.xml').read()):
    a=dict(re.findall(r'(\w+)="([^"]*)"',m[1]))
    lo=V.index(a.get('MinVersion','Version_1_0')) if a.get('MinVersion','Version_1_0') in V else 0
    hi=V.index(a['MaxVersion']) if 'MaxVersion' in a else 20
    spec.setdefault(a['Field'],set()).update(range(lo,hi+1))
n=0
for l in open('golden/C04.tsv'):
    if l[0]=='#': continue
    t,lab,mask,c,why=l.rstrip('\n').split('\t')
    if lab[0] in '|d' or ' & ' in lab or lab.startswith('all'): continue
    f=re.match(r'\.(\w+)',lab)[1]; m=int(mask,16)
    lost={v for v in range(21) if m>>(2*v)&3}
    exp=set(range(21))-spec.get(f,set(range(21)))
    if lost!=exp: print(lab[:70],'lost',[V[x] for x in sorted(lost-exp)][:6],'kept',[V[x] for x in sorted(exp-lost)][:6],why[:60])
