#!/bin/bash
# newseed.sh ID CRATE OPT AT(file rel. to crate, e.g. src/lib.rs): takes the diff of the scratch worktree /tmp/seed, demo.rs on stdin
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /tmp/seed diff -- '*.rs' '*.x' > $d/patch.diff
sed "s/@CRATE@/$2/; s/@OPT@/$3/; s#@AT@#$4#" /verif/tools/demo_template.sh > $d/demo.sh; chmod +x $d/demo.sh
cat > $d/demo.rs
