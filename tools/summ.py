#!/usr/bin/env python3
"""Summarises golden/<id>.tsv: per type and field, which versions are lost."""
import sys,re
V="V1_0 V1_2 V1_40 V2_05 V2_10 V2_21 V2_22 V2_5 V2_6 R9 R10 R11 R12 R13 R14 R2000 R2004 R2007 R2010 R2013 R2018".split()
FULL=(1<<42)-1
def vs(m):
    out=[];
    for e,name in ((0,'t'),(1,'b')):
        l=[V[i] for i in range(21) if m>>(2*i+e)&1]
        out.append(l)
    if out[0]==out[1]: return rng(out[0])
    return 't:'+rng(out[0])+' b:'+rng(out[1])
def rng(l):
    if not l: return '-'
    idx=[V.index(x) for x in l]; r=[]; s=p=idx[0]
    for i in idx[1:]+[99]:
        if i!=p+1: r.append(V[s] if s==p else V[s]+'..'+V[p]); s=i
        p=i
    return ','.join(r)
rows={}
gate={}
for l in open(sys.argv[1]):
    if l[0]=='#': continue
    t,lab,m,c,why=l.rstrip('\n').split('\t')
    m=int(m,16)
    if lab=='gate': gate[t]=m
    rows.setdefault(t,[]).append((lab,m,c,why))
pat=sys.argv[2] if len(sys.argv)>2 else ''
for t in rows:
    if pat and not re.search(pat,t): continue
    g=gate.get(t,0)
    if g: print(f"## {t} gated {vs(g)}")
    agg={}
    for lab,m,c,why in rows[t]:
        if lab=='gate' or lab[0]=='|': continue
        m2=m&~g
        if not m2: continue
        f=lab.split('=')[0] if ' & ' not in lab else 'PAIR '+' & '.join(x.split('=')[0] for x in lab.split(' & '))
        agg.setdefault((f,m2,c),[]).append((lab.split('=',1)[-1][:30],why))
    for (f,m,c),x in agg.items():
        print(f"{t} {f} [{vs(m)}] {c} n={len(x)} e.g. {x[0][0]} :: {x[0][1][:100]}")
