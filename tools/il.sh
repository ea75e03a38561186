#!/bin/bash
# refresh build/il.json (used by run1.py / run2.py while developing) from the current tree
cd /verif/build && python3-vt -c "
import sys,os; sys.path[:0]=['/verif/dcv']
import check
os.makedirs('/verif/build',exist_ok=True)
p,w=check.extract(); print(p,w[:500])
if p:
    import shutil; shutil.copy(p,'/verif/build/il.json')"
