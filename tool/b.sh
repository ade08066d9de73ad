#!/bin/bash
. /opt/vp/env.sh 2>/dev/null; cd /verif/tool && go build -o /verif/bin/go2v ./go2v
