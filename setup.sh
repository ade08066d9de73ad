#!/bin/bash
# Builds the translator offline; the checks rebuild it (cached) as well.
set -e
. /opt/vp/env.sh >/dev/null 2>&1 || true
cd "$(dirname "$0")/tool"
mkdir -p ../bin
GOPROXY=off GOTOOLCHAIN=local go build -o ../bin/go2v ./go2v
verus --version >/dev/null
