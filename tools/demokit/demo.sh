#!/bin/bash
# Compiles demo.cc against the libraries built from /repo and runs it: exit 0 if the behaviour is right.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'find "$T" -delete' EXIT
B=$PWD/_build/cpp
L=$(find "$B" -name 'lib*.so' -printf '%h\n' | sort -u)
I=; for d in "$B" src/utils src/value src/expr src/intfc src/exec src/xml-parser src/app-framework src/third-party/pugixml/src src/apps/StandAloneSimulator src/interfaces/UdpAdapter src/interfaces/LuvListener; do [ -d "$d" ] && I="$I -I$d"; done
R=; for d in $L; do R="$R -L$d -Wl,-rpath,$d"; done
g++ -std=c++14 -w -g -DHAVE_CONFIG_H -DPLEXIL_WITH_THREADS=1 -include cstdint $I $CXX_EXTRA -I"$D" "$D/demo.cc" -o "$T/demo" $R $(cat "$D/libs" 2>/dev/null) -lPlexilAppFramework -lPlexilXmlParser -lPlexilExec -lPlexilIntfc -lPlexilExpr -lPlexilValue -lPlexilUtils -lpugixml -ldl -lpthread || exit 2
timeout 60 "$T/demo"
