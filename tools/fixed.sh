#!/bin/bash
# fixed.sh PROPERTY COMMIT...: record repairs in known-findings.jsonl
p=$1; shift
for h in "$@"; do echo "fixed: property=$p $(git -C /repo rev-parse --short $h) $(git -C /repo log -1 --format=%s $h | sed 's/^fix: //')" >> /verif/known-findings.jsonl; done
