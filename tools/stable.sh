#!/bin/bash
# Runs the repository's stable tests quietly.
bash /opt/vp/build.sh >/tmp/stable.build.log 2>&1 || { tail -20 /tmp/stable.build.log; exit 1; }
bash /opt/vp/test.sh /tmp/stable.json >/tmp/stable.log 2>&1; tail -1 /tmp/stable.log
