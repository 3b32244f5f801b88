import sys,re
p='/verif/harness/src/main.rs';s=open(p).read()
m='/verif/harness/src/checks/mod.rs';t=open(m).read()
for i in sys.argv[1:]:
    l=i.lower()
    if f'"{i}" =>' not in s:
        s=s.replace("        _ => {\n            eprintln",f'        "{i}" => {l}::run(&mut r),\n        _ => {{\n            eprintln')
    if f"mod {l};" not in t: t+=f"pub mod {l};\n"
open(p,'w').write(s);open(m,'w').write(t)
