#!/usr/bin/env python3
"""plant.py [id...]: makes /verif/seeded/<id>/ from the list in seeds.py: changes a scratch copy of /repo, confirms that it
builds, that the stable tests pass, that the demo passes without and fails with the change."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from seeds import SEEDS
BASE = json.load(open('/opt/vp/BASELINE.json'))
DEMO = '''#!/bin/sh
# run with cwd /repo: builds main.rs against the crate there
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
dbml-rs = { path = "$repo", features = ["utils"] }
[workspace]
EOF
cd "$t" && CARGO_TARGET_DIR="$t/target" RUSTFLAGS="@FLAGS@" cargo run --offline --quiet
'''
HEAD = '''#![allow(dead_code, unused_imports)]
use dbml_rs::{ast::*, parse_dbml, parse_dbml_unchecked};
fn tree(s: &str) -> SchemaBlock<'_> { match parse_dbml_unchecked(s) { Ok(t) => t, Err(e) => panic!("does not parse: {e}") } }
/// checked document: project added in front
fn checked(s: &str) -> Result<(), String> { let t = format!("Project p {{ }}\\n{s}"); match std::panic::catch_unwind(|| parse_dbml(&t).map(|_| ()).map_err(|e| e.to_string())) { Ok(r) => r, Err(_) => panic!("parse_dbml panics") } }
fn accepted(s: &str) { if let Err(e) = checked(s) { panic!("has to be accepted:\\n{s}\\n{e}") } }
fn rejected(s: &str) { if checked(s).is_ok() { panic!("has to be rejected:\\n{s}") } }
fn rejected_with(s: &str, m: &str) { match checked(s) { Ok(_) => panic!("has to be rejected:\\n{s}"), Err(e) => assert!(e.contains(m), "has to be rejected with {m:?}:\\n{s}\\n{e}") } }
'''
def run(c, cwd, t=900, **k): return subprocess.run(c, cwd=cwd, capture_output=True, text=True, timeout=t, **k)
def tests_pass(d):
    r = run(['cargo', 'test', '--workspace', '--no-fail-fast', '--offline'], d)
    return r.returncode == 0, r.stdout[-1500:] + r.stderr[-1500:]
S = '/tmp/plant'
def main():
    ids = sys.argv[1:]
    if os.path.exists(S): shutil.rmtree(S)
    subprocess.run(['cp', '-a', '/repo', S], check=True)
    run(['git', 'checkout', '-q', '--', '.'], S)
    for s in SEEDS:
        if ids and s['id'] not in ids: continue
        out = '%s/seeded/%s' % (V, s['id'])
        if not ids and os.path.exists(out + '/patch.diff'): continue
        run(['git', 'checkout', '-q', '--', '.'], S)
        ok = True
        for f, old, new in s['edits']:
            t = open(S + '/' + f).read()
            if t.count(old) != 1: print(s['id'], 'EDIT does not apply once:', f, t.count(old), old[:60]); ok = False; break
            open(S + '/' + f, 'w').write(t.replace(old, new))
        if not ok: continue
        patch = run(['git', 'diff'], S).stdout
        base = {f: set(run(['git', 'show', '3227413:' + f], '/repo').stdout.split('\n')) for f, _, _ in s['edits']}
        gone = [l[1:] for l in patch.split('\n') if l.startswith('-') and not l.startswith('---')]
        if not any(l in base[f] for l in gone for f in base): print(s['id'], 'changes no original line'); continue
        os.makedirs(out, exist_ok=True)
        open(out + '/main.rs', 'w').write(HEAD + s['demo'])
        open(out + '/demo.sh', 'w').write(DEMO.replace('@FLAGS@', '--cfg dbml_verif' if s.get('hook') else ''))
        os.chmod(out + '/demo.sh', 0o755)
        good, log = tests_pass(S)
        if not good: print(s['id'], 'TESTS fail with the change\n', log[-800:]); shutil.rmtree(out); continue
        bad = run(['sh', out + '/demo.sh'], S)
        run(['git', 'checkout', '-q', '--', '.'], S)
        clean = run(['sh', out + '/demo.sh'], S)
        if clean.returncode: print(s['id'], 'DEMO fails on the clean tree', clean.stderr[-800:]); shutil.rmtree(out); continue
        if not bad.returncode: print(s['id'], 'DEMO passes with the change'); shutil.rmtree(out); continue
        open(out + '/patch.diff', 'w').write(patch)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        print(s['id'], 'ok:', (re.findall(r'panicked at.*\n(.*)', bad.stderr) or [bad.stderr[-100:]])[0][:110])
    shutil.rmtree(S)
main()
