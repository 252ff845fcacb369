#!/usr/bin/env python3
"""Mutation testing of the checks. mutate.py OUT SEED N WORKERS [file-regex]
Every mutant changes one line of a scratch copy of /repo; the checks which are
responsible for the file are run on it (quick tier) until one reports a violation.
OUT gets a line per mutant: verdict, file, line number, old and new text."""
import os,random,re,subprocess,sys,threading,queue,time,shutil
OUT,SEED,N,W=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]),int(sys.argv[4])
FRE=re.compile(sys.argv[5] if len(sys.argv)>5 else '.')
V=os.environ.get('MUT_VERIF','/verif')
MAP=[ # file regex -> checks
('util/characters','U03 A05 A02'),('util/coded_io|util/serialization','U02 D02'),('util/csv_reader','U01 D01'),('util/mmap','U01 D02 C01'),
('util/(array_slice|bounded_queue|char_buffer|flat|inlined|lru|memory|sliceable|stl_util|string_piece|lazy)','U04 A01 T03'),
('util/(murmur|seahash|fast_hash|hashing)','A07 A08 U04'),('util/(fast_printer|printer|cfg|parse_utils)','C02 O01 O02 A08 D01'),
('core/env|core/core','A03 D02 C01 C02 T04'),('features_api','A08 A03'),
('analysis/analysis_input','A02 U03 A01'),('analysis/analysis_result','O02 O01 A01'),('analysis/analyzer','A01 A03 A06 A05 A02 C01'),
('analysis/charlattice|normalized|numeric|onomato|unk_','A05 A02'),('analysis/(dic_reader|dictionary_node)','A04 D01'),('analysis/extra','A05 A03 A07'),
('analysis/(innode|ngram_comp)','A07 A08'),('analysis/lattice','A01 A04 A06'),('analysis/output','A04 O01'),('analysis/perceptron','D02 A06 A07'),
('analysis/rnn','R01'),('analysis/score','A06 A08 R01 A01'),('dic/darts_trie','A04 D01 D02'),('dic/dic_build|dic/entry_builder|dic/field|dic/dic_e|dic/dictionary','D01 A04 D02 A07'),('dic/dic_feature','A07 D01'),
('impl/feature|impl/int_seq','A07 A08'),('impl/model|impl/percep','D02 U02'),('impl/segmented','O03 O01 C01'),('core/input/partial|core/input/pex','T01 C01'),('core/input/','C01 T02 C02'),
('training/full_ex|training/gold','T02 T03'),('training/loss','T03'),('training/partial','T01 T03 T04'),('training/scw','T03 T04'),('training/train','T04 T03'),('codegen/','A08'),('core/proto/','O03'),('rnn/','R01'),
('jumandic/shared/(juman_f|morph|jumandic_id)','O01 O03'),('jumandic/shared/jumandic_spec','O01 A08 T04'),('jumandic/shared/(juman_pb|jumanpp_pb|mdic|subset)','O03'),('jumandic/shared/lattice','O02'),('jumandic/shared/jumandic_env','C01 O03 C02'),('jumandic/shared/jumanpp_args','C02 C01 O02'),
('jumandic/main/jumanpp_train','T04'),('jumandic/main/jumanpp','C01 C02'),
]
def checks(f):
    for r,c in MAP:
        if re.search(r,f): return c.split()
    return None
SKIP=re.compile(r'^\s*(//|\*|/\*|#|namespace|using|template|include|case .*:$|public:|private:|JPP_D?CHECK|JPP_INVIO|JPP_CAPTURE|JPP_UNLIKELY|JPP_ALWAYS|LOG_|assert|<<|return JPPS)|JPP_DCHECK|JPPS_|LOG_|static_assert|#define|<< "|prefetch')
REPL=[(r' < ',' <= '),(r' <= ',' < '),(r' > ',' >= '),(r' >= ',' > '),(r' == ',' != '),(r' != ',' == '),(r' && ',' || '),(r' \|\| ',' && '),
 (r' \+ 1\b',''),(r' - 1\b',''),(r' \+ ',' - '),(r' - ',' + '),(r' \+= ',' = '),(r' -= ',' += '),(r'\+\+',''),(r'\btrue\b','false'),(r'\bfalse\b','true'),
 (r'\bcontinue;','break;'),(r'\bbreak;',';'),(r'\b0\b','1'),(r'\b1\b','2'),(r'\b2\b','3'),(r' \* ',' + '),(r' & ',' | '),(r' >> ',' << '),(r'std::min\b','std::max'),(r'std::max\b','std::min'),(r'= !','= '),(r'\(!','('),(r'\bbegin\b','start'),(r'\.first\b','.second')]
STMT=re.compile(r'^(\s*)([\w\.\->\[\]\(\)_:<>]+(\(.*\)| [\+\-\|&]?= .*|\+\+));\s*$')
IF=re.compile(r'^(\s*(?:\} else )?if \()(.*)(\) \{?\s*)$')
def cands(src):
    out=[]
    L=src.split('\n')
    for i,l in enumerate(L):
        if SKIP.search(l) or not l.strip() or 'for (auto' in l and False: continue
        code=l.split('//')[0]
        for a,b in REPL:
            for m in re.finditer(a,code):
                if '"' in code[:m.start()] and code[:m.start()].count('"')%2==1: continue
                if 'template' in code or 'operator' in code: continue
                if b=='1' and re.search(r'(0x|\.|\w)$',code[:m.start()]): continue
                out.append((i,code[:m.start()]+b+code[m.end():]))
        m=STMT.match(code)
        if m and not re.match(r'\s*(return|delete|using|typedef|auto|const|JPP_RETURN\w*\(this)',code) and not re.match(r'^\s*\w[\w:<>]* \w+ =',code):
            out.append((i,m.group(1)+';'))
        m=IF.match(code)
        if m:
            out.append((i,m.group(1)+'false && ('+m.group(2)+')'+m.group(3)))
            out.append((i,m.group(1)+'true || ('+m.group(2)+')'+m.group(3)))
    return L,out
files=[]
for d,_,fs in os.walk('/repo/src'):
    for f in fs:
        p=os.path.join(d,f)[len('/repo/src/'):]
        if re.search(r'_test|test_|win32|/test/|core/spec/|format\.(h|cc)$|debug|graphviz|legacy|\.txt|\.in$|darts\.h|global_beam_pos|path_diff|status|logging|assert',p) and not re.search(r'_format\.(cc|h)$',p): continue
        if re.search(r'graphviz|win32|_test',p): continue
        if p.endswith(('.cc','.h','.cpp','.hpp')) and FRE.search(p) and checks(p): files.append(p)
allm=[]
for p in sorted(files):
    L,c=cands(open('/repo/src/'+p).read())
    for i,n in c: allm.append((p,i,L[i],n))
print(len(files),'files',len(allm),'mutants',flush=True)
R=random.Random(SEED); R.shuffle(allm)
# spread over files: round robin weighted by sqrt
done=set()
if os.path.exists(OUT):
    for l in open(OUT):
        q=l.rstrip('\n').split('\t'); done.add((q[1],q[2],q[4]))
byf={}
for m in allm: byf.setdefault(m[0],[]).append(m)
order=[]
rank=[]
for f,ms in byf.items():
    for k,m in enumerate(ms): rank.append(((k+R.random())/len(ms)**0.6,m))
rank.sort(key=lambda x:x[0])
order=[m for _,m in rank][:N]
q=queue.Queue()
for m in order:
    if (m[0],str(m[1]+1),m[3].strip()) not in done: q.put(m)
lock=threading.Lock()
def sh(cmd,env,to):
    try:
        p=subprocess.Popen(cmd,shell=True,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,start_new_session=True)
        o,_=p.communicate(timeout=to); return p.returncode,o.decode(errors='replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.wait(); return 124,''
def work(w):
    S=f'/tmp/mut{w}'; B=f'/tmp/mutb{w}'
    if not os.path.isdir(S):
        subprocess.check_call(f'git clone -q /repo {S}',shell=True)
    subprocess.check_call(f'git -C {S} fetch -q /repo HEAD && git -C {S} reset -q --hard FETCH_HEAD',shell=True)
    # files outside of git (submodules are plain here)
    env=dict(os.environ,VERIF_CCACHE='1',VERIF_REPO=S,VERIF_BUILD=B,VERIF_NOSHRINK='1',VERIF_SEED='1')
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        f,i,old,new=m
        p=f'{S}/src/{f}'
        src=open(p).read(); L=src.split('\n'); assert L[i]==old
        L[i]=new; open(p,'w').write('\n'.join(L))
        verdict='SURVIVED'; t=time.time()
        for c in checks(f):
            r,o=sh(f'bash {V}/build.sh chk_{c}',env,900)
            if r!=0: verdict='nobuild'; break
            r,o=sh(f'bash {V}/run.sh {c} quick --no-evidence',env,600)
            if r==1 and 'VIOLATION' in o: verdict='caught:'+c; break
            if r==3: verdict='nobuild'; break
            if r!=0: verdict=f'odd:{c}:{r}'; break
        open(p,'w').write(src)
        with lock:
            open(OUT,'a').write('\t'.join([verdict,f,str(i+1),old.strip(),new.strip(),f'{time.time()-t:.0f}s'])+'\n')
ts=[threading.Thread(target=work,args=(w,)) for w in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
