#!/bin/bash
# regenerates checks/mod.rs from the files present
cd /verif/harness/src/checks
ids=$(ls c[0-9]*.rs | sed 's/.rs//' | sort)
{ echo "use crate::engine::CheckDef;"; for i in $ids; do echo "mod $i;"; done; echo; echo "pub fn all() -> Vec<CheckDef> {"; echo "    vec!["; for i in $ids; do echo "        $i::def(),"; done; echo "    ]"; echo "}"; } > mod.rs
