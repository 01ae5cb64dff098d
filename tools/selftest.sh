#!/bin/bash
# Compare the engine's concrete execution with the native binary on the
# repository's own Scheme test files.
cd /tmp
FL="-w -std=gnu++20 -O0 -Xclang -disable-O0-optnone -g -include limits.h -emit-llvm -I/repo/src/c -I/verif/engine/rt -DSX_ENGINE"
clang++-18 $FL -c /verif/harness/selftest.cc -o st.bc && clang++-18 $FL -c /verif/engine/rt/rt_common.cc -o rtc.bc && clang-18 -w -O0 -Xclang -disable-O0-optnone -fno-builtin -g -emit-llvm -c /verif/engine/rt/libc.c -o libc.bc && llvm-link-18 all.bc libc.bc rtc.bc st.bc -o st_all.bc || exit 1
for f in ${@:-$(find /repo/test -name '*.scm')}; do
  ( cd /tmp; timeout 20 /repo/_build/pscm_cc --test $f 2>/dev/null </dev/null > /tmp/st_nat.txt )
  timeout 100 /verif/engine/build/sxe st_all.bc --repo /repo --out /tmp/o --hostfile $f --max-instr 400000000 --timeout 60 > /tmp/st_eng.txt 2>/tmp/st_eng.err
  if cmp -s st_nat.txt st_eng.txt; then echo "SAME $f"; else echo "DIFF $f"; diff st_nat.txt st_eng.txt | head -${N:-3}; python3 -c "
import json;d=json.load(open('/tmp/o/selftest.json'));print(d['killed'],[(e['sig'],e['detail']) for e in d['errors']])"; fi
done
