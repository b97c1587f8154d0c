"""property -> monitor binary and cargo features"""
import sys
M = {}
for p in "P01 P02 P03 P04 P05".split():
    M[p] = ("mon-core", "")
for p in "P06 P07 P08".split():
    M[p] = ("mon-dif", "dif")
for p in "P11 P12 P13 P14".split():
    M[p] = ("mon-formats", "formats")
for p in ["P%d" % i for i in range(15, 25)]:
    M[p] = ("mon-issuer", "issuer")
for p in "P25 P26".split():
    M[p] = ("mon-verifier", "verifier")
for p in "P27 P28 P29".split():
    M[p] = ("mon-holder", "holder")
for p in "P30 P31 P32".split():
    M[p] = ("mon-wire", "vc")
for p in "P09 P10".split():
    M[p] = ("macros", "")
if __name__ == "__main__":
    if sys.argv[1] == "--all":
        for b in sorted(set(M.values())):
            print(*b)
        sys.exit(0)
    if sys.argv[1] not in M:
        sys.exit(2)
    print(*M[sys.argv[1]])
