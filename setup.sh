#!/bin/bash
# builds the harness once; every check rebuilds what changed in /repo since
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$here/sim/env.sh"
cd "$here/sim" && cargo build --offline --target x86_64-unknown-linux-gnu
