#!/bin/bash
# build.sh OUT : compiles the lexer harness against the library built from /repo's working tree
set -e
d=$(dirname "$0"); R=${ALUSUS_REPO:-/repo}
g++ -g -O0 -fno-rtti -std=c++17 -DUSE_LOGS '-DALUSUS_HIJRI_RELEASE_DATE=""' '-DALUSUS_RELEASE_DATE="x"' '-DALUSUS_REVISION="x"' '-DALUSUS_VERSION="x"' \
  -I$R/Sources/Srt/Srl -I$R/Sources/Core "$d/lexer_harness.cpp" -o "$1" \
  $R/_build/Core/libalusus_core.dbg.a $R/_build/Srt/Srl/libalusus_srl.dbg.a $R/_build/Core/libalusus_storage.so -Wl,-rpath,$R/_build/Core -Wl,--export-dynamic -ldl
