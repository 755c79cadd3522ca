import json,subprocess,os,shutil,sys,time
D='/tmp/mut/p2'
if not os.path.exists(D+'/repo') or '--fresh' in sys.argv:
    shutil.rmtree(D,ignore_errors=True); os.makedirs(D+'/repo'); os.makedirs(D+'/v/.build')
    subprocess.run(f'cd /repo && git ls-files -z | xargs -0 cp -a --parents -t {D}/repo',shell=True,check=True)
    subprocess.run(f'cp -a /verif/harness /verif/check.sh /verif/known_findings.json /verif/MANIFEST.json {D}/v/; sed -i "s#=> /repo#=> {D}/repo#" {D}/v/harness/go.mod; mkdir -p {D}/v/evidence',shell=True,check=True)
R={'array.go':'V04 V22 V23 V15','object.go':'V03 V22 V23 V15','number.go':'V01 V08','string.go':'V02 V19 V25','merge.go':'V07 V25 V03 V04 V08','not.go':'V08 V25 V09','combination.go':'V06 V22 V25 V15','if.go':'V09 V25 V15 V22','constraint.go':'V06 V08 V09 V15','document.go':'V12 V13 V25 V11','fetchers.go':'V13 V12','cli/cli.go':'V21 V13','parse.go':'V14 V12 V13 V20 V25 V15 V10','reference.go':'V11 V15 V12 V25','reference_hander.go':'V11 V15 V25 V12','reference_path.go':'V11 V12','internal/jsonschema/formats.go':'V08 V02','internal/util/util.go':'V01 V04 V03 V07 V08 V12 V13','generator.go':'V23 V15 V24 V18','json.go':'V05 V20 V14','root.go':'V24 V14 V18','enum.go':'V05','const.go':'V05','assert.go':'V25 V03 V04','all_of.go':'V07','multiple_type.go':'V10','walk.go':'V11 V12 V08','error.go':'V25','rand/random.go':'V22 V01 V24'}
ALL='V14 V16 V05 V01 V10 V06 V08 V09 V11 V12 V20 V24 V25 V18 V23 V21 V07 V02 V13 V03 V04 V22 V15 V19'.split()
done=set()
if os.path.exists('/tmp/mut/p2.jsonl'):
    for l in open('/tmp/mut/p2.jsonl'):
        x=json.loads(l); done.add((x['file'],x['start'],x['end'],x['text']))
out=open('/tmp/mut/p2.jsonl','a')
while True:
    todo=[m for m in map(json.loads,open('/tmp/mut/p1.jsonl')) if m['res']=='alive' and (m['file'],m['start'],m['end'],m['text']) not in done]
    if not todo:
        if os.path.exists('/tmp/mut/p1.done'): break
        time.sleep(20); continue
    m=todo[0]; done.add((m['file'],m['start'],m['end'],m['text']))
    p=f'{D}/repo/{m["file"]}'; src=open(p,'rb').read()
    open(p,'wb').write(src[:m['start']]+m['text'].encode()+src[m['end']:])
    hit=None; odd=[]
    try:
        b=subprocess.run(f'. /opt/vp/env.sh; cd {D}/v/harness && GOFLAGS=-mod=mod go build -buildvcs=false -o ../.build/vh . && cd {D}/repo && go build -buildvcs=false -o {D}/v/.build/chaff ./cli',shell=True,executable='/bin/bash',capture_output=True,text=True)
        if b.returncode: m['p2']='nobuild'; odd=[b.stderr[-200:]]
        else:
            pri=R.get(m['file'],'V19 V02' if 'regen' in m['file'] else '').split()
            t0=time.time()
            for v in pri+[x for x in ALL if x not in pri]:
                try:
                    r=subprocess.run(['timeout','300',f'{D}/v/.build/vh','-prop',v,'-tier','quick','-verif',D+'/v'],capture_output=True,text=True,env=dict(os.environ,VERIF_SEED='1',VERIF_TIER='quick'))
                except Exception as e: odd.append(str(e)); continue
                if r.returncode==1 and f'VIOLATION property={v}' in r.stdout: hit=v; break
                if r.returncode!=0: odd.append(f'{v} rc{r.returncode}')
            m['p2']='caught' if hit else 'missed'; m['t']=round(time.time()-t0)
    finally: open(p,'wb').write(src)
    m['by']=hit; m['odd']=odd
    line=src[:m['start']].count(b'\n'); m['src']=src.decode().split('\n')[line].strip()
    out.write(json.dumps(m)+'\n'); out.flush()
