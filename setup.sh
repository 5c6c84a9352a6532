#!/bin/bash
# Builds the harness crates from the committed files and /repo's working tree
cd "$(dirname "$0")" || exit 1
exec python3 -c '
import sys
sys.path.insert(0, ".")
from vlib import core
for k, (d, _, _) in core.CRATES.items():
    import os
    if os.path.exists(os.path.join(core.VERIF, d, "Cargo.toml")):
        print("built", core.build(k))
'
