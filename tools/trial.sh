#!/bin/bash
# trial.sh <id>...: bug.sh for each, summary on stdout
for i in "$@"; do echo "=== $i"; /verif/tools/bug.sh $i 2>&1; done
