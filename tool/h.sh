#!/bin/bash
# development: build the harness and run one property's cases
. /opt/vp/env.sh >/dev/null 2>&1; export GOFLAGS= GOPROXY=off GOTOOLCHAIN=local
d=/tmp/hb; mkdir -p $d
python3 - <<'P'
import os,json,shutil
repl={}
for n in os.listdir('/verif/harness'):
    if n.endswith('.go'): repl[os.environ.get('VERIF_REPO','/repo')+'/internal/verifharness/'+n]='/verif/harness/'+n
json.dump({"Replace":repl},open('/tmp/hb/o.json','w'))
shutil.copy('/repo/go.mod','/tmp/hb/go.mod'); shutil.copy('/repo/go.sum','/tmp/hb/go.sum')
P
(cd ${VERIF_REPO:-/repo} && go build -overlay $d/o.json -modfile $d/go.mod -o $d/h ./internal/verifharness) && time $d/h -prop $1 -tier ${2:-quick} -budget ${3:-60} ${@:4}
