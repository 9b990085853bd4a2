#!/bin/bash
# Builds the simulator and the harness against /repo's working tree. Exit 2 on failure.
. /verif/env.sh
mkdir -p "$CARGO_TARGET_DIR"
cd /verif/sim || exit 2
exec 9>"$CARGO_TARGET_DIR/.lock"; flock 9
# cargo goes by modification times: a source which changed but is older than the last build would be missed
python3 - "$CARGO_TARGET_DIR/.sources" <<'E2'
import hashlib, json, os, subprocess, sys, time
stamp = sys.argv[1]; now = {}; stale = False
try: old = json.load(open(stamp))
except Exception: old = None
for d, ds, fs in os.walk('/repo'):
    ds[:] = [x for x in ds if x not in ('target', '.git', 'node_modules')]
    for f in fs:
        if f.endswith(('.rs', '.toml', '.fall', '.lock')):
            p = os.path.join(d, f)
            try: now[p] = hashlib.sha1(open(p, 'rb').read()).hexdigest()
            except OSError: continue
            if old and old['files'].get(p) != now[p] and os.stat(p).st_mtime <= old['time'] + 2: stale = True
if stale:
    crates = [l.split()[1] for l in subprocess.run(['cargo', 'tree', '--offline', '--prefix', 'depth', '-f', ' {p}'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, universal_newlines=True).stdout.splitlines() if '(/repo' in l]
    for c in sorted(set(crates)): subprocess.run(['cargo', 'clean', '--offline', '-p', c, '--target', 'x86_64-unknown-linux-gnu'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
json.dump({'time': time.time(), 'files': now}, open(stamp + '.new', 'w'))
E2
cargo build --offline --target x86_64-unknown-linux-gnu >"$CARGO_TARGET_DIR/build.log" 2>&1 || { grep -E "^(error|warning: unused)" -A6 "$CARGO_TARGET_DIR/build.log" | head -60 >&2; tail -5 "$CARGO_TARGET_DIR/build.log" >&2; exit 2; }
mv "$CARGO_TARGET_DIR/.sources.new" "$CARGO_TARGET_DIR/.sources"
