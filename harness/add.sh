#!/bin/bash
# add.sh C10 C11 ...: register property modules
cd /verif/harness/src/props
for p in "$@"; do
  l=$(echo $p | tr C c)
  grep -q "^mod $l;" mod.rs || python3 - $l <<'P'
import sys,re
l=sys.argv[1]; s=open('mod.rs').read()
mods=sorted(set(re.findall(r'^mod (c\d\d);',s,re.M))|{l})
s=re.sub(r'(?:^mod c\d\d;\n)+', ''.join(f'mod {m};\n' for m in mods), s, flags=re.M)
s=re.sub(r'(?:        c\d\d::property\(\),\n)+', ''.join(f'        {m}::property(),\n' for m in mods), s)
open('mod.rs','w').write(s)
P
done
