#!/bin/bash
# usage: check.sh <property id> [extra args]; tier from VERIF_TIER (default quick).
# Environment mirrors /opt/vp/support/env.sh: the code under test is /repo's working tree.
ID=$1; shift
# setup: nothing is built; the code under test is imported from /repo by each check.
[ "$ID" = setup ] && exec /opt/venv/bin/python -c "import jax, flax, tensorflow, numpy; print('ok')"
DIR=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} LANG=C.UTF-8
export PYTHONPATH=${VERIF_REPO:-/repo}:$DIR:/opt/vp/support PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3 TF_ENABLE_ONEDNN_OPTS=0
export NO_GCE_CHECK=true JAX_TRACEBACK_FILTERING=off
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
unset XLA_FLAGS
exec /opt/venv/bin/python -m mc.run "$ID" "$@"
