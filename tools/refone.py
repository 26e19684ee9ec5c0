import sys,os,shutil,subprocess
# refone.py SPEC ID PROP : run one prop verbosely
specs=eval(open(sys.argv[1]).read()); s=[x for x in specs if x['id']==sys.argv[2]][0]
d='/tmp/rf1'; shutil.rmtree(d,ignore_errors=True)
shutil.copytree('/repo/crates',d+'/crates',ignore=shutil.ignore_patterns('target','tests','node_modules','fixtures'))
for n in os.listdir('/repo'):
    if os.path.isfile('/repo/'+n): shutil.copy('/repo/'+n,d)
for e in s['edits']:
    f,o,n=e if len(e)==3 else (s['file'],*e)
    p=d+'/crates/'+f; t=open(p).read(); assert o in t; open(p,'w').write(t.replace(o,n,1))
r=subprocess.run([sys.executable,'/verif/run.py',sys.argv[3]],env={**os.environ,'VERIF_REPO':d,'VERIF_EVIDENCE':d+'/evidence'},capture_output=True,text=True)
print(r.stdout+r.stderr)
