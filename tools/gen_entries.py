#!/usr/bin/env python3
"""Rewrite the module and entry list of harness/src/h/mod.rs from the sources beside it."""
import re,os
d=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','harness','src','h')
mods=sorted(f[:-3] for f in os.listdir(d) if f.endswith('.rs') and f!='mod.rs')
ents=[(m,x) for m in mods for x in re.findall(r'pub extern "C" fn (h_\w+)',open(f'{d}/{m}.rs').read())]
s=open(f'{d}/mod.rs').read()
s=''.join(f'pub mod {m};\n' for m in mods)+s[s.index('\nmacro_rules'):]
s=s[:s.index('entries!(\n')]+'entries!(\n'+''.join(f'    {m}::{e},\n' for m,e in ents)+');\n'
open(f'{d}/mod.rs','w').write(s)
