#!/bin/bash
# cwd: the repository. Exit 0 when the property holds, 1 when it is broken.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
PYTHONDONTWRITEBYTECODE=1 timeout 280 python3 "$d/demo.py" "$PWD" "$t"
