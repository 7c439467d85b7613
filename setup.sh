#!/bin/bash
# Builds the framework once, offline. The checks build what they need themselves; this only shows that
# the tool chain works.
here=$(cd "$(dirname "$(readlink -f "$0")")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOWORK=off
cd "$here/harness" && go build -o /dev/null ./... && echo "setup ok"
