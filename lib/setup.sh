#!/bin/bash
# builds the extractor and the explorer's dependencies from the committed files
cd "$(dirname "$0")/.." || exit 1
. /opt/vp/env.sh 2>/dev/null
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
(cd extract && cargo build --offline --release) || exit 1
python3 - <<'E'
import sys
sys.path.insert(0, 'lib')
from vlib import *
gen_main(VERIF + "/harness/gen/main.rs")
E
# a failure here only costs time later: every check builds what it needs
(cd harness && cargo build --offline) || true
exit 0
