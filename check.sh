#!/bin/bash
# bash /verif/check.sh C01 [--replay FILE]   (tier: VERIF_TIER, seed: VERIF_SEED)
here=$(cd "$(dirname "$0")" && pwd)
seed=${VERIF_SEED:-1}
[[ $seed =~ ^[0-9]+$ ]] || seed=1
export VERIF_SEED=$seed
export PYTHONHASHSEED=$(( seed % 4294967295 ))
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent
export MC_REPO=${MC_REPO:-/repo}
export PYTHONPATH=$here:$MC_REPO
export LC_ALL=C.UTF-8
unset http_proxy https_proxy HTTP_PROXY HTTPS_PROXY ALL_PROXY all_proxy CDTB_STORAGE CDTB_EXPORT CDRAGON_DATA CDTB_HASHES_DIR
cd "$here" || exit 2
exec /opt/venv/bin/python -B -m mc.run "$@"
