#!/bin/bash
# run from the repository, once built; 0: the property holds
exec python3 "$(dirname "$0")/check.py"
