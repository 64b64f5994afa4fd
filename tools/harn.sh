#!/bin/sh
# harn.sh PROP FORK [seconds]: one line per job of that fork
cd /verif
python3-vt check.py $1 --tier ${TIER:-quick} --only "\"fork\": \"$2\"" --keep-going -v --jobs 8 2>&1
