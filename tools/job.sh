#!/bin/bash
# dev helper: job.sh src.cpp [clang flags] -- [vfse args]: compile one harness and print a summary
src=$1; shift; fl=(); while [ $# -gt 0 ] && [ "$1" != "--" ]; do fl+=("$1"); shift; done; shift
b=/tmp/w/$(basename $src .cpp)_$$
clang++-18 -std=c++17 -O1 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -gline-tables-only -emit-llvm -c -I/verif/harness -I${VERIF_REPO:-/repo} "${fl[@]}" -ferror-limit=3 $src -o $b.bc 2>&1 | grep -E "error|required|note: in inst" | head -8; [ -s $b.bc ] || exit 1
/verif/build/vfse $b.bc -o $b.json "$@"; rc=$?
python3 - $b.json $rc <<'P'
import json,sys
j=json.load(open(sys.argv[1]))
print("rc",sys.argv[2],*["%s=%s"%(k,j[k]) for k in ('paths','instructions','instrs','forks','truncated','terminated_assume','z3calls','solver_seconds','wall','undef_reads','max_constraints') if k in j])
print("covers",j['covers'])
for v in j['violations']: print("VIOL",v['kind'],'|',v['tag'],'|',v['where'],'|',v['inputs'],'|',v['notes'])
P
rm -f $b.bc $b.json
