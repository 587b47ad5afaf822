#!/usr/bin/env python3
"""Mutation campaign: sample edits of /repo's packages, keep those that build and pass
the package tests, and see which quick checks notice.
usage: mutrun.py OUT.jsonl WORKERS SECONDS SEED [pkg ...]"""
import json, os, random, subprocess, sys, threading, time, shutil, glob, re
out, workers, secs, seed, pkgs = sys.argv[1], int(sys.argv[2]), float(sys.argv[3]), int(sys.argv[4]), sys.argv[5:]
V='/verif'
props = {'theta':'T01 T03 T02 T04 T05', 'tuple':'U01 U02 U03', 'hll':'H01 H02 H03 H04', 'cpc':'C01 C02 C03', 'kll':'K01 K02 K04 K03',
 'req':'R01 R02 R03', 'tdigest':'D01 D02', 'frequencies':'F01 F02 F03', 'count':'M01 M02', 'filters':'B01 B02 B03',
 'sampling':'S01 S02 S03 S04 S05', 'common':'K01 F01 F03 K04 S05 S01', 'internal':'T01 T03 H01 C01 K01 B01 U01 D01 X05'}
tail = 'X04 X01 X05 X07 X08 X06 X09 X10 X11 X12 X13 X02 X03'
skip_tail = {}
deps = {'theta':['./theta/...','./tuple/...'], 'internal':['./...'], 'common':['./...']}
allp = pkgs or list(props)
files=[]
for p in allp:
    for f in glob.glob(f'/repo/{p}/**/*.go', recursive=True):
        b=os.path.basename(f)
        if b.endswith('_test.go') or 'fuzz' in b: continue
        files.append(f)
env = dict(os.environ, HOME='/root', GOROOT='/opt/veriftools/go1.24.13', GOTOOLCHAIN='local', GOPATH='/root/go', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off',
  GOCACHE='/root/.cache/go-build')
env['PATH']='/opt/veriftools/go1.24.13/bin:'+env['PATH']
env.pop('DSKETCH_TEST_GENERATE_GO', None)
edits=[json.loads(l) for l in subprocess.run(['go','run','.']+files,cwd=V+'/tools/mutate',env=env,capture_output=True,text=True,check=True).stdout.splitlines()]
if os.environ.get('MUT_KINDS'): edits=[e for e in edits if e['Kind'] in os.environ['MUT_KINDS'].split()]
edits=[e for e in edits if not e['New'].startswith('false && (err ')] # errors that cannot happen
rnd=random.Random(seed)
# equal weight per package, then per file by size
by={}
for e in edits: by.setdefault(e['File'].split('/')[2],[]).append(e)
for v in by.values(): rnd.shuffle(v)
done=set()
for f in glob.glob(os.environ.get('MUT_DONE','')):
    for l in open(f):
        d=json.loads(l); done.add((d['File'],d['From'],d['To'],d['New']))
for k in by: by[k]=[e for e in by[k] if (e['File'],e['From'],e['To'],e['New']) not in done]
queue=[]
while any(by.values()):
    for p in list(by):
        if by[p]: queue.append(by[p].pop())
end=time.time()+secs
lock=threading.Lock(); it=iter(queue); o=open(out,'a')
def run(cmd,cwd,t,e=None):
    try:
        p=subprocess.Popen(cmd,cwd=cwd,env=e or env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,start_new_session=True)
        try: s,_=p.communicate(timeout=t)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid,9); s,_=p.communicate(); return 'timeout',s
        return p.returncode,s
    except Exception as ex: return 'err',str(ex)
def worker(i):
    R=f'/tmp/mw/r{i}'; H=f'/tmp/mw/h{i}'
    for d in (R,H): shutil.rmtree(d,ignore_errors=True)
    shutil.copytree('/repo',R,ignore=shutil.ignore_patterns('.git')); shutil.copytree(V+'/harness',H)
    m=open(H+'/go.mod').read().replace('=> /repo','=> '+R); open(H+'/go.mod','w').write(m)
    while time.time()<end:
        with lock:
            e=next(it,None)
        if e is None: break
        f=R+e['File'][5:]; src=open(f,'rb').read()
        new=src[:e['From']]+e['New'].encode()+src[e['To']:]
        pkg=e['File'].split('/')[2]
        r=dict(e,pkg=pkg)
        try:
            open(f,'wb').write(new)
            c,s=run(['go','build','./...'],R,120)
            if c!=0: r['res']='nobuild'
            else:
                c,s=run(['go','test','-vet=off','-timeout','60s']+deps.get(pkg,[f'./{pkg}/...']),R,90)
                if c!=0: r['res']='test'
                else:
                    b=f'/tmp/mw/b{i}'
                    c,s=run(['go','build',f'-modfile={H}/go.mod','-o',b,'./cmd'],H,180)
                    if c!=0: r['res']='hbuild'; r['out']=s[-300:]
                    else:
                        r['res']='SURVIVED'
                        for p in (props[pkg]+' '+skip_tail.get(pkg,tail)).split():
                            bb=b
                            if p=='X03':
                                bb=b+'r'; c,s=run(['go','build','-race',f'-modfile={H}/go.mod','-o',bb,'./cmd'],H,240)
                            ev=dict(env,HARNESS_REPO=R,GORACE=f'halt_on_error=0 exitcode=0 atexit_sleep_ms=10 log_path=/tmp/mw/race{i}')
                            c,s=run([bb,'-prop',p,'-tier','quick','-seed','1','-evidence',f'/tmp/mw/e{i}','-replaydir',f'/tmp/mw/p{i}','-known',V+'/KNOWN_FINDINGS.txt'],R,400,ev)
                            if c!=0:
                                r['res']='caught'; r['by']=p; r['code']=c
                                k=re.search(r'key=(\S+)',s); r['key']=k.group(1) if k else s[-200:]
                                break
        finally:
            open(f,'wb').write(src)
            for x in glob.glob(f'/tmp/mw/race{i}.*'): os.unlink(x)
            shutil.rmtree(f'/tmp/mw/p{i}',ignore_errors=True)
        with lock:
            o.write(json.dumps(r)+'\n'); o.flush()
    for d in (R,H): shutil.rmtree(d,ignore_errors=True)
ts=[threading.Thread(target=worker,args=(i,)) for i in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
