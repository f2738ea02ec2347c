#!/usr/bin/env python3
# author-time: lists the flag accessors and the item-reference accessors of the crate's public API
# (from the generated and hand-written sources) as Rust tables: mc/src/api_flags.rs and mc/src/api_refs.rs
import re, glob, sys, os
gen = sorted(glob.glob('/repo/target/debug/build/dxf-*/out/generated/entities.rs'), key=os.path.getmtime)[-1]
gen = os.path.dirname(gen)
files = [gen+'/entities.rs', gen+'/objects.rs', gen+'/tables.rs', gen+'/header.rs', '/repo/src/block.rs', '/repo/src/class.rs', '/repo/src/drawing.rs'] + ['/repo/src/%s.rs' % f for f in ('section_type_settings','table_cell_style')]
flags, refs = {}, {}
for f in files:
    t = open(f).read().split('#[cfg(test)]\nmod tests')[0]
    cur = None
    for l in t.split('\n'):
        m = re.match(r'impl (?:\w+ for )?(\w+)', l)
        if m: cur = m.group(1)
        m = re.match(r'    pub fn set_(\w+)\(&mut self, \w+: bool\)', l)
        if m: flags.setdefault(cur, []).append(m.group(1))
        m = re.match(r"    pub fn (set|add)_(\w+)\(&mut self, item: &(\w+)\)( -> DxfResult<\(\)>)?", l)
        if m: refs.setdefault(cur, []).append((m.group(1), m.group(2), m.group(3), bool(m.group(4))))
rets = {}
for f in files:
    cur=None
    for l in open(f).read().split('\n'):
        m = re.match(r'impl (?:\w+ for )?(\w+)', l)
        if m: cur = m.group(1)
        m = re.match(r"    pub fn (\w+)<'a>\(&self, drawing: &'a Drawing\) -> (.*) \{", l)
        if m: rets[(cur, m.group(1))] = m.group(2)
ents = set(re.findall(r'^    (\w+)\(\w+\),', re.search(r'pub enum EntityType \{(.*?)\n\}', open(gen+'/entities.rs').read(), re.S).group(1), re.M))
objs = set(re.findall(r'^    (\w+)\((\w+)\),', re.search(r'pub enum ObjectType \{(.*?)\n\}', open(gen+'/objects.rs').read(), re.S).group(1), re.M))
objvar = {b: a for a, b in objs}
entvar = dict((b, a) for a, b in re.findall(r'^    (\w+)\((\w+)\),', re.search(r'pub enum EntityType \{(.*?)\n\}', open(gen+'/entities.rs').read(), re.S).group(1), re.M))
out = ['// generated by tools/gen_api.py: every flag accessor', '#![allow(clippy::all)]', 'use dxf::entities::*;', 'use dxf::objects::*;', 'use dxf::tables::*;', 'use dxf::*;', 'use crate::flags::Flags;', 'pub fn all(v: &mut dyn FnMut(&dyn Flags)) {']
n=0
import collections
def host(s):
    if s in entvar: return f'entity:{entvar[s]}'
    if s in objvar: return f'object:{objvar[s]}'
    if s in ('Header',): return 'header'
    if s in ('Block',): return 'block'
    if s in ('Class',): return 'class'
    return 'none'
for s in flags:
    if s in ('ViewMode','Drawing', None): continue
    names = flags[s]
    n += len(names)
    out.append(f'    v(&crate::flags::Host::<{s}> {{ name: "{s}", place: "{host(s)}", fs: vec![')
    for x in names:
        out.append(f'        ("{x}", |o| o.{x if True else x}(), |o, b| o.set_{x}(b)),')
    out.append('    ] });')
out.append('}')
open('/verif/mc/src/api_flags.rs','w').write('\n'.join(out)+'\n')
print(n,'flags', {s:host(s) for s in flags})
print(refs)
print({k:v for k,v in rets.items()})
# references
o = ['// generated by tools/gen_api.py: every item-reference accessor', '#![allow(clippy::all)]', 'use crate::refs::*;', 'use dxf::entities::*;', 'use dxf::objects::*;', 'use dxf::*;', 'pub fn all() -> Vec<Ref> {', '    vec![']
for s in refs:
    for kind, name, ty, res in refs[s]:
        r = rets[(s, name)]
        if ty == 'DrawingItemMut':
            target, arg = 'any', 'item'
        else:
            target, arg = ty, None
        h = host(s)
        if s in ('EntityCommon', 'ObjectCommon'):
            acc = '&mut e.common' 
        many = r.startswith('Vec')
        if s == 'EntityCommon': pat = ('H::E(e)', 'e.common'); place='entity:Line'
        elif s == 'ObjectCommon': pat = ('H::O(o)', 'o.common'); place='object:PlaceHolder'
        elif h.startswith('entity'): pat = (f'H::E(Entity {{ specific: EntityType::{entvar[s]}(x), .. }})', 'x'); place=h
        elif h.startswith('object'): pat = (f'H::O(Object {{ specific: ObjectType::{objvar[s]}(x), .. }})', 'x'); place=h
        else:
            print('no host for', s, name); continue
        p, x = pat
        p2 = p.replace('H::E(', 'R::E(').replace('H::O(', 'R::O(')
        if ty == 'DrawingItemMut': call = f'{x}.{kind}_{name}(t); true'
        elif res: call = f'if let DrawingItemMut::{ty}(i) = t {{ {x}.{kind}_{name}(&**i).is_ok() }} else {{ false }}'
        else: call = f'if let DrawingItemMut::{ty}(i) = t {{ {x}.{kind}_{name}(&**i); true }} else {{ false }}'
        got = f'{x}.{name}(d)'
        inner = r[r.index('<')+1:-1]
        conv = 'ident(i)' if inner.startswith('DrawingItem') else 'ident(DrawingItem::%s(i))' % inner.split()[-1]
        get = f'{got}.into_iter().map(|i| {conv}).collect()'
        o.append(f'        Ref {{ name: "{s}.{name}", place: "{place}", many: {"true" if many else "false"}, target: "{target}",')
        o.append(f'            set: |h, t| if let {p} = h {{ {call} }} else {{ false }},')
        o.append(f'            get: |h, d| if let {p2} = h {{ {get} }} else {{ vec![] }} }},')
o += ['    ]', '}']
open('/verif/mc/src/api_refs.rs','w').write('\n'.join(o)+'\n')
