#!/usr/bin/env python3
"""mk.py: from a python file of bugs, write /verif/seeded/<id>/ and verify."""
import sys,os,subprocess,json,importlib.util
DEMO='''#!/bin/bash
# exit 0: the property holds for this input; non-zero: it does not. Runs in the repository after the build.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
tmp=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cp /opt/vp/ws/Cargo.lock "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
%s
[profile.dev]
debug = false
opt-level = %s
overflow-checks = false
[workspace]
T
cd "$tmp" || exit 2
export CARGO_TARGET_DIR="$tmp/target" CARGO_INCREMENTAL=0
%s
cargo build --offline -q 2> "$tmp/log" || { cat "$tmp/log" | tail -30; exit 2; }
timeout 200 "$tmp/target/debug/demo"
'''
ALL={'fields':'fields = { path = "/opt/vp/ws/fields" }','starky':'starky = { path = "/opt/vp/ws/starky" }','algebraic-gpu':'algebraic-gpu = { path = "/opt/vp/ws/algebraic-gpu" }','recursion':'recursion = { path = "/opt/vp/ws/recursion" }','rand':'rand = "0.4"','num-bigint':'num-bigint = "0.4"','serde_json':'serde_json = "1.0"','ff13':'ff = "0.13"','ff_ce':'ff = {package="ff_ce" , version="0.12"}',
 'gnark':'recursion-gnark-ffi = { path = "/opt/vp/ws/recursion-gnark/ffi" }','pairing':'pairing = "0.23.0"','serde':'serde = { version="1.0", features=["derive"]}','num-traits':'num-traits = "0.2"'}
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
spec=importlib.util.spec_from_file_location('b',sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
only=sys.argv[2:]
assert sh('git -C /repo status --porcelain').stdout=='' 
for b in m.BUGS:
    if only and b['id'] not in only: continue
    d='/verif/seeded/'+b['id']; os.makedirs(d,exist_ok=True)
    try:
        for f,old,new in b['edits']:
            p='/repo/'+f; t=open(p).read()
            n=t.count(old)
            assert n==1 or (n>1 and b.get('nth') is not None),(b['id'],f,n)
            if n>1:
                i=-1
                for _ in range(b['nth']+1): i=t.index(old,i+1)
                t=t[:i]+new+t[i+len(old):]
            else: t=t.replace(old,new)
            open(p,'w').write(t)
        diff=sh('git -C /repo diff').stdout
        open(d+'/patch.diff','w').write(diff)
    finally:
        sh('git -C /repo checkout -- .')
    open(d+'/main.rs','w').write(b['demo'])
    open(d+'/demo.sh','w').write(DEMO%('\n'.join(ALL[x] for x in b.get('deps',['fields','starky','rand'])),b.get('opt',0),b.get('pre','')))
    os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":b['property'],"needs":b['needs'],"what_it_breaks":b['breaks']},open(d+'/meta.json','w'),indent=1)
    r0=sh('bash /opt/vp/build.sh >/tmp/seed/build.log 2>&1; bash %s/demo.sh'%d,cwd='/repo')
    r1=None; t='?'
    try:
        assert sh('git -C /repo apply %s/patch.diff'%d).returncode==0
        rb=sh('bash /opt/vp/build.sh')
        if rb.returncode: print(b['id'],'BUILD FAIL',rb.stdout[-1500:])
        rt=sh('bash /opt/vp/test.sh /tmp/seed/t.json')
        res=json.load(open('/tmp/seed/t.json'))
        base=json.load(open('/opt/vp/BASELINE.json'))['stable']
        passed=set(res.get('passed',[])) if isinstance(res.get('passed'),list) else None
        t=[x for x in base if x not in passed] if passed is not None else str(res)[:300]
        r1=sh('bash %s/demo.sh'%d,cwd='/repo')
    finally:
        sh('git -C /repo checkout -- .')
    print(b['id'],'unpatched',r0.returncode,'patched',r1 and r1.returncode,'tests failing',t)
    if r0.returncode or not r1 or r1.returncode in (0,2): print(r0.stdout[-1500:],'\n--\n',r1 and r1.stdout[-1500:])
