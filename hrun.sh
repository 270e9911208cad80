#!/bin/bash
# developer helper: build and run one harness. hrun.sh PID [args]
p=$1; shift; F=$(grep -o '^// FLAGS: .*' /verif/harness/$p.cpp | sed 's,// FLAGS: ,,')
mkdir -p /tmp/h; R=${REPO:-/repo}
[ -n "$NB" ] || g++ -std=c++17 -O1 -g1 -w -fopenmp -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -I$R/include -I/verif/harness $F /verif/harness/$p.cpp -o /tmp/h/$p 2>&1 | grep -E "error|required from" | head -${EL:-20}
ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2048 OMP_NUM_THREADS=2 /tmp/h/$p "$@" 2>&1 | cut -c1-${W:-1500} | head -${L:-80}
