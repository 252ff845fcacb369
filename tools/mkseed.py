# mkseed.py: helpers to write seeded/<id>/{patch.diff,meta.json,demo.sh,demo.cc}
import difflib,json,os,shutil
V='/verif/seeded/'
DEMO='''#!/bin/bash
# compiles demo.cc (a Catch test) against the built libraries and runs it
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
B=/repo/_build
SRC=/repo/src
g++ -std=c++14 -O0 -w -I$SRC -I$SRC/core -I/repo/libs -I$B/src -I$B/src/core -I$B/src/core/cfg -I$B/src/jumandic -I/repo/libs/pathie-cpp/include -o $T/demo "$D/demo.cc" \\
  -Wl,--start-group $B/src/testing/libjpp_test_catch_main_lib.a $B/src/jumandic/libjpp_jumandic.a $B/src/jumandic/libjpp_jumandic_spec.a \\
  $B/src/core/training/libjpp_core_train.a $B/src/core/libjpp_core.a $B/src/rnn/libjpp_rnn.a $B/src/util/libjpp_util.a $B/libs/pathie-cpp/libpathie.a -Wl,--end-group \\
  -lprotobuf -lpthread -ldl || { echo "demo does not compile"; exit 5; }
cd $T && timeout 120 ./demo
'''
def seed(id,prop,edits,needs,breaks,demo_cc=None,demo_sh=None,files={}):
    d=V+id; os.makedirs(d,exist_ok=True)
    out=''
    byf={}
    for f,old,new in edits:
        s=byf.get(f) or [open('/repo/'+f).read()]*2
        assert s[1].count(old)==1,(id,f,s[1].count(old),old)
        byf[f]=[s[0],s[1].replace(old,new)]
    for f,(a,b) in byf.items():
        out+=''.join(difflib.unified_diff(a.splitlines(True),b.splitlines(True),'a/'+f,'b/'+f))
    open(d+'/patch.diff','w').write(out)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1,ensure_ascii=False)
    if demo_cc: open(d+'/demo.cc','w').write(demo_cc)
    open(d+'/demo.sh','w').write(demo_sh or DEMO)
    os.chmod(d+'/demo.sh',0o755)
    for k,v in files.items(): open(d+'/'+k,'w').write(v)
