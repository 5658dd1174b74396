#!/bin/bash
# Builds the explorer once (warms the build cache); every check rebuilds it from /repo's working tree.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
mkdir -p out/bin evidence
(cd mc && go build -o ../out/bin/mc .) || exit 1
out/bin/mc -list >/dev/null
