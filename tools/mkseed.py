#!/usr/bin/env python3
"""mkseed.py SPEC.py : (re)creates /verif/seeded/<id>/ from a spec file defining SEEDS = [dict(id, property, needs, breaks,
file, old, new[, more=[(file, old, new)]], demo=<rust main body>, kind='crate'|'ngrams')].  The change is made in a scratch copy of /repo."""
import sys, os, json, subprocess, shutil, tempfile, runpy
V='/verif'
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
DEMO='''#!/bin/bash
# exit 0 on a tree where the property holds, nonzero otherwise. Builds llamapun from $PWD with
# stand-ins for the crates that are not available offline, everything inside a scratch directory.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
cp -r "$here/lib/." "$t/"
mkdir -p "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
sed "s#@REPO@#$repo#" "$here/lib/Cargo.toml.in" > "$t/Cargo.toml"
cd "$t" || exit 3
RUSTFLAGS="--cap-lints allow" CARGO_TARGET_DIR="$t/target" timeout 280 cargo run --offline -q 2>"$t/log"
rc=$?
[ $rc -ne 0 ] && tail -5 "$t/log"
exit $rc
'''
def lib(d):
    shutil.copytree(f'{V}/harness/stubs', f'{d}/lib/stubs', ignore=shutil.ignore_patterns('target'))
    shutil.copytree(f'{V}/harness/vendor', f'{d}/lib/vendor', ignore=shutil.ignore_patterns('target'))
    os.makedirs(f'{d}/lib/.cargo'); shutil.copy(f'{V}/harness/.cargo/config.toml', f'{d}/lib/.cargo/config.toml')
    shutil.copy(f'{V}/harness/Cargo.lock', f'{d}/lib/Cargo.lock')
    open(f'{d}/lib/Cargo.toml.in','w').write('''[package]
name = "llamapun-replay"
version = "0.1.0"
edition = "2021"
[dependencies]
llamapun = { path = "@REPO@" }
libxml = "0.3"
rust-senna = { git = "https://github.com/jfschaefer/rust-senna.git" }
unidecode = "0.3"
serde_json = "1"
regex = "1"
rayon = "1"
[profile.dev]
debug = 0
[patch.crates-io]
unidecode = { path = "stubs/unidecode" }
rust-crypto = { path = "stubs/rust-crypto" }
whatlang = { path = "stubs/whatlang" }
tar = { path = "stubs/tar" }
jwalk = { path = "stubs/jwalk" }
[workspace]
''')
only = sys.argv[2:]
for s in runpy.run_path(sys.argv[1])['SEEDS']:
    if only and s['id'] not in only: continue
    d=f"{V}/seeded/{s['id']}"
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d)
    tmp=tempfile.mkdtemp(prefix='seed')
    sh(f'cp -r /repo/src {tmp}/a'); 
    ok=True
    for f,o,n in [(s['file'],s['old'],s['new'])]+s.get('more',[]):
        t=open(f'{tmp}/a/{f}').read()
        if t.count(o)<1: print(s['id'],'OLD TEXT NOT FOUND in',f,repr(o)[:80]); ok=False; continue
        k=s.get('nth',0); parts=t.split(o); 
        t=o.join(parts[:k+1])+n+o.join(parts[k+1:])
        open(f'{tmp}/a/{f}','w').write(t)
    if not ok: continue
    p=''
    for f in sorted({f for f,_,_ in [(s['file'],0,0)]+s.get('more',[])}):
        r=sh(f'git diff --no-index /repo/src/{f} {tmp}/a/{f}').stdout
        out=[]
        for l in r.splitlines():
            if l.startswith('diff --git'): l=f'diff --git a/src/{f} b/src/{f}'
            elif l.startswith('--- '): l=f'--- a/src/{f}'
            elif l.startswith('+++ '): l=f'+++ b/src/{f}'
            out.append(l)
        p+='\n'.join(out)+'\n'
    open(f'{d}/patch.diff','w').write(p)
    open(f'{d}/demo.rs','w').write(s['demo'])
    open(f'{d}/demo.sh','w').write(DEMO); os.chmod(f'{d}/demo.sh',0o755)
    lib(d)
    json.dump(dict(property=s['property'],needs=s['needs'],what_it_breaks=s['breaks']),open(f'{d}/meta.json','w'),indent=1)
    shutil.rmtree(tmp)
    print(s['id'],'written', sh(f'cd /repo && git apply --check {d}/patch.diff').stderr)
