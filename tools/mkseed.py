#!/usr/bin/env python3
"""mkseed.py ID PROP PKG FILE: makes seeded/ID from stdin (JSON: edits [[file,old,new]], needs, breaks, test = Go source of the demonstration).
Verifies that it applies, builds, passes the existing tests and that the demonstration tells the two trees apart."""
import json,os,re,shutil,subprocess,sys,tempfile
sid=sys.argv[1]; spec={}
src=sys.stdin.read()
# format: sections @@prop @@pkg @@needs @@breaks @@edit FILE / <<<< old ==== new >>>> @@test
sec=re.split(r'^@@(\w+) ?(.*)$',src,flags=re.M)
edits=[]
for k in range(1,len(sec),3):
    name,arg,body=sec[k],sec[k+1].strip(),sec[k+2]
    if name=='edit':
        m=re.findall(r'^<<<<\n(.*?)^====\n(.*?)^>>>>$',body,flags=re.M|re.S)
        assert m, body
        edits+= [(arg,a,b) for a,b in m]
    elif name=='test': spec['test']=body.lstrip('\n')
    else: spec[name]=(arg+' '+' '.join(body.split())).strip()
out='/verif/seeded/'+sid
w='/tmp/seed_'+sid
if os.path.exists(w): shutil.rmtree(w)
subprocess.check_call(['git','clone','-q','/repo',w])
for f,a,b in edits:
    s=open(w+'/'+f).read()
    if s.count(a)!=1: print('old text occurs',s.count(a),'times in',f); sys.exit(1)
    open(w+'/'+f,'w').write(s.replace(a,b))
env=dict(os.environ); env.pop('GOFLAGS',None)
subprocess.call(['gofmt','-l','.'],cwd=w)
diff=subprocess.check_output(['git','diff'],cwd=w,text=True)
os.makedirs(out,exist_ok=True)
open(out+'/patch.diff','w').write(diff)
open(out+'/demo_test.go.txt','w').write(spec['test'])
pk=spec['pkg']
open(out+'/demo.sh','w').write('''#!/bin/sh
# Runs the demonstration beside this script inside package %s of the tree in the current directory.
d=$(cd "$(dirname "$0")" && pwd)
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go.txt"}}' "$PWD" "$d" |
	go test -count=1 -overlay /dev/stdin -run 'TestSeededDemo' ./%s
'''%(pk,pk,pk))
json.dump(dict(property=spec['prop'],needs=spec['needs'],what_it_breaks=spec['breaks']),open(out+'/meta.json','w'),indent=1)
def run(d,cmd): 
    r=subprocess.run(cmd,cwd=d,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=280); return r.returncode,r.stdout
ok=True
rc,o=run('/repo',['sh',out+'/demo.sh'])
if rc!=0 : ok=False; print('demo fails on the unchanged tree',o[-1500:])
if 'no tests to run' in o: ok=False; print('demo runs nothing')
rc,o=run(w,['go','build','./...'])
if rc!=0: ok=False; print('no build',o[-1500:])
rc,o=run(w,['go','test','./...'])
base=json.load(open('/opt/vp/BASELINE.json'))
bad=[l for l in o.split('\n') if '--- FAIL' in l or 'build failed' in l and '/examples' not in l]
if bad:
    print('existing tests:',bad[:8])
    ok=False
rc,o=run(w,['sh',out+'/demo.sh'])
if rc==0: ok=False; print('demo passes with the patch')
else: print('\n'.join(l for l in o.split('\n') if l.strip())[:500])
shutil.rmtree(w)
print(sid,'OK' if ok else 'BAD')
