#!/bin/bash
# tools/dbg.sh PROPERTY REPLAY: backtrace at the point where a replayed run fails
exec env KSIM_NOEXEC=1 setarch -R gdb -q -batch -ex "set follow-fork-mode child" -ex "break ksim::fail" -ex "break ksim::bad_access" -ex "break ksim::deadlock" -ex run -ex bt --args "$(dirname "$0")/../build/chk-$1/sim" --replay "$2"
