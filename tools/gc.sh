#!/bin/bash
# regenerates the shipped decoders and says whether the committed text is still what comes out
. /verif/tools/env.sh; cd /repo; cp generated/gencode.rs /tmp/g0.rs
cargo run --offline -q --bin doodle -- format --output rust --dest generated/gencode.rs 2>/dev/null
cmp generated/gencode.rs /tmp/g0.rs && echo gencode-same; git checkout -q generated/gencode.rs
