#!/bin/sh
# Builds the extension from /repo once, so that the first check does not have to.
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -B -c "from mc import env; env.load(); print('ready')"
