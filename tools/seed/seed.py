#!/usr/bin/env python3
"""seed.py bugs.py [id...] : make, confirm and store planted bugs; then run checks"""
import importlib.util, json, os, re, shutil, subprocess, sys
W="/tmp/w/seed"; V="/verif/seeded"
def sh(c,cwd=None,env=None,t=600):
    e=dict(os.environ); e.update(env or {})
    p=subprocess.run(c,shell=isinstance(c,str),cwd=cwd,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t)
    return p.returncode,p.stdout
def load(f):
    s=importlib.util.spec_from_file_location("bugs",f); m=importlib.util.module_from_spec(s); s.loader.exec_module(m); return m.BUGS
base=json.load(open('/opt/vp/BASELINE.json'))
def ids(x):
    if isinstance(x,list): return set(x)
    for k in('stable','passed','pass','tests','ids'):
        if k in x: return set(x[k])
def suite(rep,n):
    for f in('test.sh','env.sh'):
        s=open('/opt/vp/'+f).read().replace('/repo',rep).replace('. /opt/vp/env.sh','. %s/env.sh'%(W+'/s%s'%n)).replace('/opt/vp/run.',W+'/run.')
        os.makedirs(W+'/s%s'%n,exist_ok=True); open(W+'/s%s/'%n+f,'w').write(s)
    out=W+'/s%s/out.json'%n
    sh(['bash',W+'/s%s/test.sh'%n,out])
    return sorted(ids(base)-ids(json.load(open(out))))
def one(b,rep,n,checks=True):
    id=b['id']; d=os.path.join(V,id)
    sh('git checkout -q -- . && git clean -fdq',rep)
    for f,old,new in b['edits']:
        p=os.path.join(rep,f); s=open(p).read()
        if s.count(old)!=1: return id,'EDIT %s matches %d times: %s'%(f,s.count(old),old[:60])
        open(p,'w').write(s.replace(old,new))
    diff=sh('git diff',rep)[1]
    # lines of the original?
    orig=sh("git log --reverse --format=%H | head -1",rep)[1].strip()
    ok=False
    for f,old,new in b['edits']:
        bl=sh(['git','blame','-l','--root','HEAD','--',f],rep)[1].split('\n')
        txt=sh(['git','show','HEAD:'+f],rep)[1]
        i=txt[:txt.index(old)].count('\n'); j=i+old.rstrip('\n').count('\n')
        a=txt.split('\n'); nl=set(new.split('\n'))
        for k in range(i,j+1):
            if bl[k].lstrip('^')[:39]==orig[:39] and a[k].strip() and a[k] not in nl: ok=True
    tmp=W+'/d-'+id
    shutil.rmtree(tmp,ignore_errors=True); os.makedirs(tmp)
    for f in('demo.sh','kit_test.go'): shutil.copy(W+'/'+f,tmp)
    imps=b.get('imports',[])
    std=['testing']+[i for i in imps if '.' not in i.split('/')[0]]
    A='github.com/snivilised/agenor'
    body=b['demo']
    auto={'age.':'age "%s"'%A,'core.':'"%s/core"'%A,'enums.':'"%s/enums"'%A,'pref.':'"%s/pref"'%A,'life.':'"%s/life"'%A,'tfs.':'"%s/tfs"'%A,'fs.':'"io/fs"','errors.':'"errors"','strings.':'"strings"','os.':'"os"','fmt.':'"fmt"','sync.':'"sync"','time.':'"time"','context.':'"context"','locale.':'"%s/locale"'%A,'collections.':'"%s/collections"'%A,'enclave.':'"%s/internal/enclave"'%A,'persist.':'"%s/internal/persist"'%A,'opts.':'"%s/internal/opts"'%A,'services.':'"%s/internal/services"'%A,'tapable.':'"%s/tapable"'%A,'filepath.':'"path/filepath"','sort.':'"sort"','reflect.':'"reflect"','atomic.':'"sync/atomic"','kernel.':'"%s/internal/kernel"'%A,'json.':'"%s/internal/opts/json"'%A}
    im=['"testing"']+[v for k,v in auto.items() if re.search(r'(?<![\w.")])'+re.escape(k),body)]+['"%s"'%i for i in imps]
    open(tmp+'/demo_test.go','w').write('package zzdemo\n\nimport (\n'+''.join('\t%s\n'%i for i in sorted(set(im)))+')\n'+body)
    json.dump({"property":b['prop'],"needs":b['needs'],"what_it_breaks":b['breaks']},open(tmp+'/meta.json','w'),indent=1)
    open(tmp+'/patch.diff','w').write(diff)
    rc,o=sh('go build ./...',rep,{'GOTOOLCHAIN':'local','GOPROXY':'off','GOFLAGS':'-mod=mod'})
    if rc: return id,'BUILD '+o[:800]
    rc,o=sh(['bash',tmp+'/demo.sh'],'/repo')
    if rc: return id,'DEMO fails on clean: '+o[:1500]
    rc,o=sh(['bash',tmp+'/demo.sh'],rep)
    if rc==0: return id,'DEMO passes with the bug'
    if 'build failed' in o or 'setup failed' in o: return id,'DEMO build: '+o[:800]
    msg='' if ok else ' [NO ORIGINAL LINE]'
    why=[x for x in o.split('\n') if 'demo_test.go' in x or 'panic' in x][:1]
    miss=suite(rep,n)
    if miss: return id,'SUITE loses %d: %s'%(len(miss),miss[:2])
    shutil.rmtree(d,ignore_errors=True); shutil.copytree(tmp,d); shutil.rmtree(tmp)
    res=[]
    if checks:
        cs=[b['prop']]+[c for c in b.get('also',[])]
        for c in cs:
            rc,o=sh(['python3','/verif/tools/check.py',c],'/verif',{'VERIF_REPO':rep,'VERIF_SEED':'1','VERIF_TIER':'quick'},900)
            res.append('%s:%s'%(c,{0:'MISSED',1:'caught'}.get(rc,'ERR '+o[-300:])))
    return id,'confirmed%s %s | %s'%(msg,' '.join(res),why)
if __name__=='__main__':
    B=load(sys.argv[1]); want=sys.argv[2:]
    n=os.getpid(); rep=W+'/repo%d'%n
    sh(['cp','-a','/repo',rep])
    try:
        for b in B:
            if want and b['id'] not in want: continue
            if not want and os.path.exists(os.path.join(V,b['id'])): continue
            print('%s  %s'%one(b,rep,n),flush=True)
    finally:
        shutil.rmtree(rep,ignore_errors=True); shutil.rmtree(W+'/s%d'%n,ignore_errors=True)
