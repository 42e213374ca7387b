#!/usr/bin/env python3
"""mk.py spec.py : spec defines ID, PROP, NEEDS, BREAKS, EDITS=[(file,old,new)], MAIN"""
import sys,os,subprocess,json,shutil
g={}
exec(open(sys.argv[1]).read(),g)
d=f"/verif/seeded/{g['ID']}"
os.makedirs(d,exist_ok=True)
subprocess.check_call(['git','-C','/repo','checkout','-q','--','.'])
for f,o,n in g['EDITS']:
    p=f'/repo/{f}'; s=open(p).read()
    assert s.count(o)==1,(f,s.count(o),o)
    open(p,'w').write(s.replace(o,n))
diff=subprocess.check_output(['git','-C','/repo','diff']).decode()
subprocess.check_call(['git','-C','/repo','checkout','-q','--','.'])
open(d+'/patch.diff','w').write(diff)
# originality of removed lines
base=subprocess.check_output(['git','-C','/repo','show',f"9d1f004:{g['EDITS'][0][0]}"]).decode().splitlines()
for l in diff.splitlines():
    if l.startswith('-') and not l.startswith('---') and l[1:] not in base: print('WARNING not an original line:',l)
json.dump({'property':g['PROP'],'needs':g['NEEDS'],'what_it_breaks':g['BREAKS']},open(d+'/meta.json','w'),indent=1)
if g.get('KIT') == 'cli':
    for x in ['demo.sh','kit.py']: shutil.copy('/verif/tools/demo_cli/'+x,d)
    open(d+'/main.py','w').write(g['MAIN'])
else:
    for x in ['kit.rs','Cargo.toml.in','Cargo.lock','demo.sh']: shutil.copy('/verif/tools/demo_kit/'+x,d)
    open(d+'/main.rs','w').write(g['MAIN'])
for x in g.get('EXTRA',[]): shutil.copy(x,d)
