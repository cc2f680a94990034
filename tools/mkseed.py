#!/usr/bin/env python3
"""mkseed.py ID PROPERTY CRATEDIR DIFF DEMO.rs NEEDS BREAKS : lay out /verif/seeded/ID"""
import json, os, sys, shutil
sid, prop, crate, diff, demo, needs, breaks = sys.argv[1:8]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(V, 'seeded', sid); os.makedirs(d, exist_ok=True)
shutil.copy(diff, os.path.join(d, 'patch.diff')); shutil.copy(demo, os.path.join(d, 'demo.rs'))
pk = {'account_storage': 'lite-account-storage', 'common': 'lite-account-manager-common', 'accounts_on_demand': 'lite-accounts-on-demand', 'token_account_storage': 'lite-token-account-storage'}[crate]
open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
# Compiles demo.rs as an integration test of %(crate)s in a scratch copy of the sources and runs it: exit 0 when the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
ws=/tmp/lam_demo_%(sid)s
rm -rf /tmp/lam_demo_%(sid)s
mkdir -p "$ws" || exit 1
for m in common account_storage accounts_on_demand token_account_storage; do cp -r "$repo/$m" "$ws/$m" || exit 1; done
sed 's/"simulate_from_snapshot",\\{0,1\\}//' "$repo/Cargo.toml" > "$ws/Cargo.toml"
cp "$repo/Cargo.lock" "$ws/Cargo.lock"
cp "$repo/rust-toolchain.toml" "$ws/" 2>/dev/null
mkdir -p "$ws/%(crate)s/tests"
%(extra)scp "$here/demo.rs" "$ws/%(crate)s/tests/demo_%(sid)s.rs"
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=1.76.0 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_TARGET_DIR="$repo/target"
cd "$ws" || exit 1
timeout 250 cargo test --offline -p %(pk)s --test demo_%(sid)s -- --test-threads 1
rc=$?
cd /
rm -rf /tmp/lam_demo_%(sid)s
exit $rc
''' % dict(crate=crate, sid=sid, pk=pk, extra='printf "\\nanyhow = {workspace = true}\\n" >> "$ws/accounts_on_demand/Cargo.toml"\n' if crate == 'accounts_on_demand' else ''))
os.chmod(os.path.join(d, 'demo.sh'), 0o755)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
