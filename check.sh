#!/bin/bash
# usage: check.sh <property-id>   (VERIF_TIER=quick|thorough)
cd "$(dirname "$0")" && exec python3 engine/driver.py "$@"
