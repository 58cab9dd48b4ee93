#!/usr/bin/env python3
"""Writes /verif/seeded from tools/seeds.py: one folder per planted change, with a self-contained
demonstration (a copy of the small runtime of the harness plus a scenario)."""
import os, re, sys, json, shutil, subprocess
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H=V+"/harness/src"
g={}; exec(open(V+"/tools/seeds.py").read(), g)
SEEDS=g['SEEDS']
def cut(s, start, end):
    a=s.index(start); b=s.index(end,a); return s[:a]+s[b:]
def kit():
    f={}
    for n in ("rt","keys","enc","obs","world"):
        f[n]=open(f"{H}/{n}.rs").read()
    o=f["obs"]
    o=cut(o,"/// The same market as the repository's own read functions","#[derive(Clone, Debug, PartialEq, Eq)]\npub struct SeatSt")
    for l in ("use phoenix::program::{load_with_dispatch, MarketSizeParams};\n","use phoenix::quantities::WrapperU64;\n","use std::panic::{catch_unwind, AssertUnwindSafe};\n"):
        assert l in o; o=o.replace(l,"")
    f["obs"]=o
    w=f["world"]
    w=cut(w,"pub struct CfgOpts","#[derive(Clone, Debug)]\npub struct Op {")
    w=w.replace("use crate::tape::Src;\n","")
    f["world"]=w
    f["scen"]=open(V+"/tools/seedkit/scen.rs").read()
    return f
LOCK=open(V+"/harness/Cargo.lock").read()
DEMO='''#!/bin/bash
# Builds the scenario beside this file against the program in the current directory and runs it:
# exit 0 when the property holds in it, nonzero when it does not.
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.75.0-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=
D=/tmp/phx-demo-@ID@
rm -rf /tmp/phx-demo-@ID@
mkdir -p "$D/src"
trap 'rm -rf /tmp/phx-demo-@ID@' EXIT
cp "$HERE"/*.rs "$D/src/" && cp "$HERE/Cargo.lock" "$D/Cargo.lock" || exit 3
cat > "$D/Cargo.toml" <<T
[package]
name = "phx"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
phoenix-v1 = { path = "$REPO", features = ["no-entrypoint"] }
spl-token = { version = "=3.5.0", features = ["no-entrypoint"] }
solana-program = "=1.14.9"
borsh = "=0.9.3"
bytemuck = "=1.13.0"
[profile.dev]
debug = 0
opt-level = 0
overflow-checks = true
incremental = false
[profile.dev.package."*"]
opt-level = 1
T
cd "$D" || exit 3
export CARGO_TARGET_DIR=$D/target
cargo build --offline --locked > "$D/build.log" 2>&1 || { tail -30 "$D/build.log"; exit 3; }
timeout 60 "$D/target/debug/phx" | tail -20
exit ${PIPESTATUS[0]}
'''
only=sys.argv[1:]
K=kit()
for s in SEEDS:
    if only and s['id'] not in only: continue
    d=f"{V}/seeded/{s['id']}"
    os.makedirs(d,exist_ok=True)
    for n,t in K.items(): open(f"{d}/{n}.rs","w").write(t)
    open(f"{d}/main.rs","w").write("#![allow(dead_code, unused_imports, unused_variables, unused_mut)]\nmod enc;\nmod keys;\nmod obs;\nmod rt;\n#[macro_use]\nmod scen;\nmod world;\nuse scen::*;\n\nfn main() {\n"+s['main'].strip('\n')+"\n    println!(\"holds\");\n}\n"+s.get('extra',''))
    open(f"{d}/Cargo.lock","w").write(LOCK)
    open(f"{d}/demo.sh","w").write(DEMO.replace("@ID@",s['id'])); os.chmod(f"{d}/demo.sh",0o755)
    json.dump({"property":s['prop'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(f"{d}/meta.json","w"),indent=1)
    # patch
    T="/tmp/mkseeds"; shutil.rmtree(T,ignore_errors=True)
    subprocess.check_call(f"mkdir -p {T} && git -C /repo archive HEAD src | tar -x -C {T} && cd {T} && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x",shell=True)
    for ff,a,b in s['subs']:
        p=f"{T}/src/{ff}"; x=open(p).read()
        assert x.count(a)==1,(s['id'],x.count(a),a[:80])
        open(p,'w').write(x.replace(a,b))
    open(f"{d}/patch.diff","w").write(subprocess.check_output(["git","-C",T,"diff"],text=True))
    shutil.rmtree(T)
    print(s['id'])
