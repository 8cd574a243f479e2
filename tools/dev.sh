#!/bin/bash
# dev helper: builds engine_m/<prog> against a tree into /tmp/dev (not used by the checks)
REPO=${REPO:-/repo}; D=/tmp/dev; mkdir -p $D; cd $D
python3 - "$1" <<P
import sys; sys.path.insert(0, "/verif")
from vlib import core, plan_m
core.REPO = plan_m.REPO = "$REPO"
c = core.Ctx.__new__(core.Ctx); c.dir = "$D"
print(plan_m.build(c, sys.argv[1]))
P
