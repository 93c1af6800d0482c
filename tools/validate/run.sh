#!/bin/bash
# run.sh [NAME...]: the unit tests of the repository run against the reference model (drv/model.hpp, drv/ffmodel.hpp) instead of the library; all: 12 min
set -e
D=$(mktemp -d); trap "rm -rf $D" EXIT; H=$(cd "$(dirname "$0")" && pwd)
R=${XV_REPO:-/repo}; cd $D
printf '#define XKCP_has_%s\n' Sponge_Keccak Duplex_Keccak PRG_Keccak FIPS202 SP800_185 TurboSHAKE KangarooTwelve Kravatte Xoofff Xoodyak KeccakP1600 Xoodoo > config.h
I="-I. -I$R/tests/UnitTests -I$R/lib/common -I$R/lib/high/common"; for d in $(find $R/lib/high -type d); do I="$I -I$d"; done
I="$I -I$R/lib/low/KeccakP-1600/ref-64bits -I$R/lib/low/KeccakP-1600/common -I$R/lib/low/Xoodoo/plain -I$R/lib/low/Xoodoo/common -I$R/lib/low/common"
for t in UT testSponge testDuplex testPRG testSP800-185 testKangarooTwelve testKravatte testKravatteModes testXoofff testXoofffModes testXoodyak; do gcc -O1 -w $I -c $R/tests/UnitTests/$t.c -o $t.o; done
g++ -O3 -march=native -w -std=c++17 $I -c $H/shim.cpp -o shim.o; g++ -O1 -c $H/umain.cpp -o umain.o
g++ *.o -o v
for t in ${*:-sponge duplex prg sp800-185 k12 kravatte kravatte-modes xoofff xoofff-modes xoodyak}; do ./v $t; done
