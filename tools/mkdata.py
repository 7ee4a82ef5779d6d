#!/usr/bin/env python3
"""Condenses the Unicode 13 data files (as bundled with fsdyn) into data/*.txt,
the committed reference of C13, C14, C15.  Not run by the checks."""
import os, sys
SRC = sys.argv[1] if len(sys.argv) > 1 else "/repo"
DST = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data")
os.makedirs(DST, exist_ok=True)
with open(DST + "/ucd.txt", "w") as out:
    # lo hi category ccc bidi upper lower decomposition...
    first = None
    for line in open(SRC + "/unicode/UnicodeData.txt"):
        f = line.rstrip("\n").split(";")
        if f[1].endswith(", First>"):
            first = f[0]
            continue
        lo = f[0]
        if f[1].endswith(", Last>"):
            lo = first
        out.write(" ".join([lo, f[0], f[2], f[3], f[4], f[12] or "-", f[13] or "-", f[5]]).rstrip() + "\n")
with open(DST + "/norm.txt", "w") as out:
    for line in open(SRC + "/unicode/DerivedNormalizationProps.txt"):
        f = [x.strip() for x in line.split("#")[0].split(";")]
        if len(f) >= 2 and f[1] in ("NFC_QC", "NFD_QC", "NFKC_QC", "NFKD_QC", "Full_Composition_Exclusion"):
            lo, _, hi = f[0].partition("..")
            out.write(" ".join([lo, hi or lo] + f[1:]) + "\n")
with open(DST + "/idna.txt", "w") as out:
    for line in open(SRC + "/idna/IdnaMappingTable.txt"):
        f = [x.strip() for x in line.split("#")[0].split(";")]
        if len(f) >= 2:
            lo, _, hi = f[0].partition("..")
            out.write(" ".join([lo, hi or lo, f[1]] + (f[2].split() if len(f) > 2 else [])) + "\n")
with open(DST + "/normtest.txt", "w") as out:
    # source;NFC;NFD of the official conformance test
    for line in open(SRC + "/unicode/NormalizationTest.txt"):
        f = line.split("#")[0].split(";")
        if len(f) >= 5:
            out.write(";".join(f[:3]) + "\n")
