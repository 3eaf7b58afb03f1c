import sys,os,subprocess,shutil,re,importlib.util
spec=importlib.util.spec_from_file_location('v',sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
ids=sys.argv[2:]
V=os.environ.get('V','/tmp/vw')
def fn_range(s,name):
    mt=re.search(r'^func (\([^)]*\) )?%s\('%re.escape(name),s,re.M)
    st=mt.start(); en=s.index('\n}\n',st)+3
    return st,en
for v in m.VARIANTS:
    if ids and not any(v['id']==i or (i.endswith('*') and v['id'].startswith(i[:-1])) for i in ids): continue
    R='/tmp/qv/'+v['id']; shutil.rmtree(R,ignore_errors=True); subprocess.check_call(['cp','-a','/repo',R])
    for f,ed in v['files'].items():
        p=R+'/'+f; s=open(p).read() if os.path.exists(p) else ''
        for e in ed:
            if e[0]=='fn':
                a,b=fn_range(s,e[1]); s=s[:a]+e[2].strip('\n')+'\n'+s[b:]
            elif e[0]=='imp':
                s=s.replace('import (','import (\n\t"%s"'%e[1],1)
            elif e[0]=='app': s=s+'\n'+e[1].strip('\n')+'\n'
            elif e[0]=='re':
                assert re.search(e[1],s),(v['id'],e[1]); s=re.sub(e[1],e[2],s)
            elif e[0]=='new': s=e[1].lstrip('\n')
            else:
                assert s.count(e[1])>=1,(v['id'],f,e[1]); s=s.replace(e[1],e[2]) if len(e)<4 else s.replace(e[1],e[2],e[3])
        open(p,'w').write(s)
    subprocess.call(['gofmt','-w']+[R+'/'+f for f in v['files'] if f.endswith('.go')])
    r=subprocess.run('go vet ./pkg/... 2>&1 | grep -v "^#" | grep -v possible.misuse| head -5; go build ./... && go test ./pkg/... 2>&1 | grep -v "no test files"|grep -v ^ok; true',shell=True,cwd=R,capture_output=True,text=True)
    pre=(r.stdout+r.stderr).strip()
    out=[]
    import time
    t=time.time()
    if v.get('fns'):
        q=subprocess.run(['nice','-n','5','timeout','600','python3-vt','vc/driver.py','--repo',R]+os.environ.get('DA','').split()+v['fns'],cwd=V,capture_output=True,text=True)
        txt=q.stdout+q.stderr
        open(R+'.log','w').write(txt)
        out.append('driver rc=%d'%q.returncode)
        bad=[l for l in txt.split('\n') if re.search(r'fail|unknown|Unsupported|NoMeasure|open|error|Error|sat\b|Traceback|timeout',l) and not re.search(r' 0 (open|fail)',l)]
        out+= bad[:8]
        out.append(txt.strip().split('\n')[-1][:300])
    for p in (v.get('props') or []):
        q=subprocess.run(['nice','-n','5','timeout','900','python3-vt','vc/check.py',p,'--repo',R,'--no-search'],cwd=V,capture_output=True,text=True)
        open(R+'.%s.log'%p,'w').write(q.stdout+q.stderr)
        out.append('%s rc=%d %s'%(p,q.returncode,(q.stdout.strip().split('\n') or [''])[-1][:200]))
    print('==',v['id'],'%ds'%(time.time()-t),pre and 'PRE: '+pre[:400]); [print('   ',o) for o in out]; sys.stdout.flush()
    os.environ.get("KEEP") or shutil.rmtree(R,ignore_errors=True)
