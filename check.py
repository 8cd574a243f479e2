#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property of librseq on /repo's working tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, plan_c, plan_m, plan_r, plan_b, plan_l
PLANS, LEVELS = {}, {}
for m in (plan_c, plan_m, plan_r, plan_b, plan_l):
    PLANS.update(m.PLANS)
    LEVELS.update(getattr(m, "LEVELS", {}))
sys.exit(core.main(PLANS, LEVELS))
