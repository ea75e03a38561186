#!/bin/bash
cd /verif/dcv; timeout ${T:-300} python3-vt run1.py "$1" 2>&1 | grep -v "drop\] \| loop \|^load" | cut -c1-260
