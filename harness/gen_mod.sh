#!/bin/bash
# Regenerates go.mod and go.sum of the harness from /repo's (same requirements and replacements).
set -e
cd "$(dirname "$0")"
python3 - <<'PY'
src = open('/repo/go.mod').read().split('\n')
out = ['// generated by gen_mod.sh from /repo/go.mod', 'module dverif']
out += [l for l in src if not l.startswith('module ')]
txt = '\n'.join(out).rstrip() + '\n\nrequire github.com/sisu-network/dheart v0.0.0\n\nreplace github.com/sisu-network/dheart => /repo\n'
open('go.mod', 'w').write(txt)
PY
cp /repo/go.sum go.sum
