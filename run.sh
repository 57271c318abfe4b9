#!/bin/bash
# run.sh <property> [--replay FILE | --cases N]: decide one property on /repo's current working tree
cd "$(dirname "$0")" || exit 2
exec env -u PYTHONPATH -u PYTHONSTARTUP PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/kpmon \
  PYTHONWARNINGS=ignore LC_ALL=C.UTF-8 TZ=UTC /opt/venv/bin/python -B -m kpmon.main "$@"
