#!/bin/bash
# nothing is compiled: the checks import slash from /repo's working tree with the installed interpreter
cd "$(dirname "$0")" || exit 1
mkdir -p evidence out/replay
exec /opt/venv/bin/python -c "import gossip, confetti, logbook, munch, psutil; print('ok')"
