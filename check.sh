#!/bin/bash
# check.sh PROPERTY [quick|thorough]
V=$(cd "$(dirname "$0")" && pwd)
P=$1
TIER=${2:-${VERIF_TIER:-quick}}
H=$("$V/build.sh") || { echo "the system does not build under the simulator" >&2; exit 2; }
case $TIER in
thorough) T=${SIM_TIME:-600s}; M=20000 ;;
*) T=${SIM_TIME:-25s}; M=800 ;;
esac
exec "$H" -prop "$P" -tier "$TIER" -seed "${VERIF_SEED:-1}" -time "$T" -min "$M" -workers "${SIM_WORKERS:-8}" -evidence "$V/evidence/$P.json" -replays "$V/replays"
