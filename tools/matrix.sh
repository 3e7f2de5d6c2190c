#!/bin/bash
# every planted bug against the check of its property
cd /verif; for d in seeded/*/; do bash tools/trybug.sh $(basename $d); done
