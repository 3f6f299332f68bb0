#!/usr/bin/env python3
"""campaign.py MUTANTS.tsv OUT.tsv LANES BUDGET: runs the owners' checks against each listed change, in scratch copies.
Reports the changes no check notices. A development aid; no check depends on it."""
import os,sys,subprocess,shutil,threading,queue,time
tsv,out,lanes,budget=sys.argv[1],sys.argv[2],int(sys.argv[3]),sys.argv[4]
here=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
OWN={
'spn/storer.go':'C10 C01','spn/search.go':'C04','spn/topo.go':'C04','spn/serial.go':'C05','spn/print.go':'C05','spn/tester.go':'C06 C01',
'spn/':'C26 C02 C06 C01 C03 C05 C25 C04','common/color.go':'C27','common/':'C11','conc/':'C12','data/manipulate.go':'C15','data/datasets.go':'C30',
'score/':'C14 C13','sys/rand.go':'C23 C15','sys/':'C23','learn/derive.go':'C07 C08 C09','learn/generative.go':'C08','learn/discriminative.go':'C09',
'learn/variable.go':'C05 C21 C18','learn/parameters/':'C23 C08 C18','learn/dennis/':'C19','learn/gens/':'C18','learn/poon/':'C20',
'utils/log.go':'C24','utils/stats.go':'C25','utils/unionfind.go':'C25 C16','utils/indep/':'C16','utils/cluster/':'C17 C19','utils/':'C21',
'io/http.go':'C30','io/output.go':'C29 C27','io/spn.go':'C05','io/arff.go':'C21','io/npy.go':'C21','io/input.go':'C21','io/images.go':'C27','io/ppm.go':'C27',
'io/pbm.go':'C27 C22','io/pgm.go':'C22 C27','io/':'C21 C27','app/':'C28','main.go':'C28'}
def owners(f):
    best=''
    for k in OWN:
        if f.startswith(k) and len(k)>len(best): best=k
    return OWN[best].split() if best else []
Q=queue.Queue()
for l in open(tsv):
    f,n,line,what=l.rstrip('\n').split('\t',3)
    Q.put((f.removeprefix('./'),int(n),line,what))
total=Q.qsize(); lock=threading.Lock(); o=open(out,'a')
def lane(i):
    base=f'/tmp/mutlane{i}'
    shutil.rmtree(base,ignore_errors=True); os.makedirs(base)
    shutil.copytree('/repo',base+'/repo',ignore=shutil.ignore_patterns('.git'))
    os.makedirs(base+'/verif'); shutil.copytree(here+'/mc',base+'/verif/mc')
    s=open(here+'/run.sh').read().replace('-out "$tmp/ov"','-repo '+base+'/repo -out "$tmp/ov"').replace('supervise -id','supervise -budget '+budget+' -id')
    open(base+'/verif/run.sh','w').write(s); os.chmod(base+'/verif/run.sh',0o755)
    shutil.copy(here+'/KNOWN_FINDINGS.txt',base+'/verif/')
    for g in ['go.mod']:
        p=base+'/verif/mc/'+g; t=open(p).read().replace('/repo',base+'/repo'); open(p,'w').write(t)
    env=dict(os.environ,VERIF_TIER='quick',MC_WORKERS=str(max(1,8//lanes)))
    while True:
        try: f,n,line,what=Q.get_nowait()
        except queue.Empty: break
        src=f'/repo/{f}'; dst=f'{base}/repo/{f}'
        shutil.copy(src,dst); subprocess.run(['/tmp/mutate','apply',dst,str(n)])
        t=time.time(); res='SURVIVED'; det=''
        b=subprocess.run(['go','build','./'+os.path.dirname(f)] if os.path.dirname(f) else ['go','build','-o','/dev/null','.'],cwd=base+'/repo',capture_output=True,env=dict(env,GOFLAGS='-mod=mod',GOPROXY='off'))
        if b.returncode: res='nobuild'
        else:
            for c in owners(f):
                r=subprocess.run(['timeout','400',base+'/verif/run.sh',c],capture_output=True,text=True,env=env)
                if r.returncode==1: res='killed'; det=c; break
                if r.returncode!=0: res='noanswer'; det=c+f' {r.returncode}'; break
        shutil.copy(src,dst)
        with lock:
            o.write(f'{res}\t{f}\t{n}\t{line}\t{what}\t{det}\t{time.time()-t:.0f}s\n'); o.flush()
ts=[threading.Thread(target=lane,args=(i,)) for i in range(lanes)]
for t in ts: t.start()
for t in ts: t.join()
for i in range(lanes): shutil.rmtree(f'/tmp/mutlane{i}',ignore_errors=True)
