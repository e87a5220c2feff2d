#!/bin/bash
# Builds what the checks need (they rebuild it themselves if it is missing or out of date).
cd /verif && python3 - <<'P'
import sys
sys.path.insert(0, "tools")
import driver, os, shutil
driver.build(True)
from suites import SUITES
work = os.path.join(driver.BUILD, "work-setup")
os.makedirs(work, exist_ok=True)
driver.generated(sorted({s for c in SUITES.values() for s in c.get("gen", [])}), work)
for c in SUITES.values():
    for h in c.get("histories", []):
        driver.histories(h, work, "quick")
shutil.rmtree(work)
P
