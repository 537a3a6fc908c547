#!/bin/bash
# developer helper: dev.sh P01 [harness args]; builds and runs one property's harness
cd "$(dirname "$0")"
P=$1; shift
EXE=$(python3 -c "import props; print(props.build_group(props.group_of('$P')))" | tail -1) || exit 2
export ASAN_OPTIONS=detect_leaks=0:exitcode=77:detect_stack_use_after_return=0:quarantine_size_mb=32
exec $EXE --prop $P --out /tmp/vpout "$@"
