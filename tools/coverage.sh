#!/bin/bash
# line coverage of the library by the simulated runs (development tool): coverage.sh RUNS [ID...]  -> /tmp/cov/*.txt
V=$(cd "$(dirname "$0")/.." && pwd); N=${1:-300}; shift; mkdir -p /tmp/cov/tmp; rm -f /tmp/cov/*.profraw /tmp/cov/*.txt
SIM_SRCCOV=1 python3 "$V/sim/build.py" /tmp/cov/build || exit 2
for i in ${*:-$(/tmp/cov/build/sim list)}; do LLVM_PROFILE_FILE=/tmp/cov/%8m.profraw /tmp/cov/build/sim run "$i" --runs "$N" --time 100 --workers "${W:-4}" --tmp /tmp/cov/tmp --known "$V/known_findings.txt" | tail -1; done
llvm-profdata merge -o /tmp/cov/all.profdata /tmp/cov/*.profraw && llvm-cov show /tmp/cov/build/sim -instr-profile=/tmp/cov/all.profdata --sources /tmp/cov/build/src > /tmp/cov/show.txt; llvm-cov report /tmp/cov/build/sim -instr-profile=/tmp/cov/all.profdata --sources /tmp/cov/build/src > /tmp/cov/report.txt; rm -f /tmp/cov/*.profraw
