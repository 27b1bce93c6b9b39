#!/bin/bash
# builds what the checks need from the committed files, offline
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys; sys.path.insert(0,'fx')
import engine
import proofs
engine.build(('fxgen', 'fxcontracts', 'fxshapes'))
proofs.weaver()
import astproof
astproof.build()
P
