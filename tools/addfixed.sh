#!/bin/bash
# addfixed.sh ID commit...: record fix commits in KNOWN_FINDINGS
id=$1; shift
for c in "$@"; do echo "fixed: property=$id $(git -C /repo log -1 --format=%h $c) repaired: $(git -C /repo log -1 --format=%s $c | sed 's/^fix: //')" ; done >> /verif/KNOWN_FINDINGS
