#!/bin/sh
# usage: check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 3
PYTHONDONTWRITEBYTECODE=1 exec /usr/bin/env python3 -m pdrlint --property "$1" --tier "${2:-quick}"
