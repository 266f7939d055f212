#!/bin/sh
# Nothing is fetched or kept: each check builds what it needs from /repo's working tree into target/.
set -e
cd "$(dirname "$0")"
python3 harness/gen_shapes.py
python3 harness/gen_probes.py
cargo --version >/dev/null
cargo +nightly miri --version >/dev/null 2>&1
mkdir -p evidence target
