# build environment of the simulator
source /opt/vp/env.sh
export CARGO_TARGET_DIR=/verif/target
unset CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
