import json,subprocess,os,random,sys,threading,queue,shutil
N=int(sys.argv[1]); SEED=int(sys.argv[2]); W=int(sys.argv[3])
M=[json.loads(l) for l in open('/tmp/muts.jsonl')]
files=set(m['file'] for m in M); orig={}
for f in files:
    o=subprocess.run(['git','-C','/repo','blame','-s',f],capture_output=True,text=True).stdout.splitlines()
    orig[f]=[l.startswith('^3305279') for l in o]
weight={'internal/jsonschema/formats.go':0.12,'internal/regen/generator_error.go':0,'test_data/document/http_schema_server/server.go':0,'internal/util/util.go':0.7,'not.go':0.6,'rand/random.go':1}
rng=random.Random(SEED)
M=[m for m in M if orig[m['file']][m['line']-1] and rng.random()<weight.get(m['file'],1)]
rng.shuffle(M); 
done=set()
if os.path.exists('/tmp/mut/p1.jsonl'):
    for l in open('/tmp/mut/p1.jsonl'): 
        x=json.loads(l); done.add((x['file'],x['start'],x['end'],x['text']))
M=[m for m in M if (m['file'],m['start'],m['end'],m['text']) not in done][:N]
base=set(json.load(open('/opt/vp/BASELINE.json')).get('stable') or [x for k,v in json.load(open('/opt/vp/BASELINE.json')).items() if isinstance(v,list) and len(v)>=100 for x in v])
q=queue.Queue(); [q.put(m) for m in M]
out=open('/tmp/mut/p1.jsonl','a'); lock=threading.Lock()
def work(i):
    d=f'/tmp/mut/w{i}'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    subprocess.run(f'cd /repo && git ls-files -z | xargs -0 cp -a --parents -t {d}',shell=True,check=True)
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        p=f'{d}/{m["file"]}'; src=open(p,'rb').read()
        open(p,'wb').write(src[:m['start']]+m['text'].encode()+src[m['end']:])
        try:
            r=subprocess.run(['bash','-c',f'. /opt/vp/env.sh; cd {d} && go build -buildvcs=false ./... '],capture_output=True,text=True)
            if r.returncode: m['res']='nobuild'
            else:
                log=f'/tmp/mut/w{i}.log'
                try:
                    r=subprocess.run(['unshare','-Urn','bash','-c',f"ip link set lo up; . /opt/vp/env.sh; cd {d} && go test -json -vet=off -count=1 -timeout 60s -skip '^(TestComplex|TestReferenceSelfReferencing)$' ./... > {log} 2>/dev/null"],timeout=120)
                    o=f'/tmp/mut/w{i}.json'
                    subprocess.run(['python3','/opt/vp/results.py',o,'gojson:'+log],capture_output=True)
                    res=json.load(open(o)); passed=set(x for k,v in res.items() if 'pass' in k and isinstance(v,list) for x in v)
                    miss=base-passed
                    m['res']='killed' if miss else 'alive'; m['miss']=sorted(miss)[:2]
                except subprocess.TimeoutExpired: m['res']='timeout'
        finally:
            open(p,'wb').write(src)
        with lock: out.write(json.dumps(m)+'\n'); out.flush()
T=[threading.Thread(target=work,args=(i,)) for i in range(W)]
[t.start() for t in T]; [t.join() for t in T]
