#!/bin/bash
# builds and runs the demonstration beside this script against the tree in the current directory
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
I="-I$D"; for d in CPPQEDutils CPPQEDcore/{quantumdata,quantumoperator,structure,quantumtrajectory,composites,high} CPPQEDelements/{frees,interactions,utils}; do I="$I -I$R/$d"; done
B=$R/_build; g++ -std=c++20 -O1 -w -DNDEBUG -DBZ_HAVE_BOOST_SERIALIZATION -DCPPQED_HAS_GSL -DBOOST_IOSTREAMS_DYN_LINK -DBOOST_SERIALIZATION_DYN_LINK $I -isystem /usr/include/eigen3 "$D/demo.cc" -o "$T/demo" \
  -L$B/CPPQEDelements -L$B/CPPQEDcore -L$B/CPPQEDutils -lCPPQEDelements -lCPPQEDcore -lCPPQEDutils -lblitz -lboost_serialization -lboost_iostreams -lgsl -lgslcblas -Wl,--defsym=_Z13versionHelperB5cxx11v=0 -Wl,-rpath,$B/CPPQEDelements:$B/CPPQEDcore:$B/CPPQEDutils || exit 99
cd "$T" && timeout 120 ./demo
