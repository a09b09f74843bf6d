#!/bin/bash
# run1.sh UNIT : extract + verify one unit (development helper)
/verif/tools/extract/target/release/vp-extract ${VPR:-/repo} /verif/verus/$1.rs /tmp/vt/$1.rs /tmp/vt/$1.rep && verus /tmp/vt/$1.rs --triggers-mode silent "${@:2}" 2>&1
