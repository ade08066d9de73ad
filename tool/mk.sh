#!/bin/bash
# usage: mk.sh fns theories  -> translate + verus (development helper)
. /opt/vp/env.sh 2>/dev/null
D=${TMPDIR:-/tmp}/t; mkdir -p $D
/verif/bin/go2v -fns "$1" -theory "$2" -o $D/x.rs -json $D/x.json || true
verus $D/x.rs --multiple-errors 4 --triggers-mode silent ${@:3} 2>&1 | sed 's/^ *--> /--> /' | tail -${TAIL:-60}
