#!/usr/bin/env python3
"""Writes uni/types_gen.go: named Go types for the type universe.

usage: gen_types.py SEED OUT
The committed file is the output for seed 1; the thorough tier regenerates it for other seeds
into a scratch file that is compiled in through an overlay.
"""
import random, sys

seed = int(sys.argv[1])
out = open(sys.argv[2], "w")
R = random.Random(seed)
lines = []
names = []  # every named type, registered


def w(s):
    lines.append(s)


def reg(n):
    names.append(n)


BIG = 1 << 40
# --- systematic part: independent of the seed -------------------------------------------------
w("type Slot uint64"); w("type Flag bool"); w("type Oct uint8"); w("type Half uint16")
reg("Slot"); reg("Flag"); reg("Oct"); reg("Half")

lists = []      # (name, elem, limit)
fixedT = []     # names of fixed-size composite types usable anywhere
varT = []       # names of variable-size types


def mklist(name, elem, limit):
    w(f"type {name} []{elem}")
    w(f"func (*{name}) Limit() uint64 {{ return {limit} }}")
    reg(name)
    lists.append((name, elem, limit))
    varT.append(name)


for e, n, lims in [
    ("byte", "LByte", [0, 1, 2, 3, 7, 31, 32, 33, 48, 63, 64, 65, 96, 100, 128, 255, 256, 257, 1000, 2048, 65536, 1 << 26, 1 << 32, BIG, 1 << 62]),
    ("bool", "LBool", [1, 2, 5, 31, 32, 33, 64, 65, 100, 300, 1 << 20]),
    ("uint16", "LU16", [1, 2, 3, 15, 16, 17, 32, 33, 48, 100, 128, 1024, 70000, BIG]),
    ("uint32", "LU32", [1, 3, 7, 8, 9, 16, 17, 24, 64, 100, 129, 1 << 16, BIG]),
    ("uint64", "LU64", [0, 1, 2, 3, 4, 5, 8, 9, 12, 33, 100, 257, 8192, 1 << 16, 1 << 32, BIG, 1 << 59]),
    ("Slot", "LSlot", [4, 9, 1 << 20]), ("Oct", "LOct", [5, 33, 64, 256]), ("Flag", "LFlag", [3, 40]), ("Half", "LHalf", [6, 40]),
]:
    for l in lims:
        mklist(f"{n}_{l}", e, l)

for l in [0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 32, 40, 63, 64, 65, 100, 127, 248, 255, 256, 257, 300, 504, 511, 512, 513, 767, 768, 1000, 1023, 1024, 1025, 2048, 4096, 1 << 20, BIG, 1 << 63, (1 << 64) - 8, (1 << 64) - 7, (1 << 64) - 1]:
    n = f"BList_{l}"
    w(f"type {n} []byte")
    w(f"func (*{n}) Limit() uint64 {{ return {l} }}")
    w(f"func (b {n}) BitLen() uint64 {{ return bitLen(b) }}")
    reg(n); varT.append(n)

for l in [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 200, 249, 255, 256, 257, 260, 300, 505, 511, 512, 513, 1000, 1023, 1024, 1025, 2048]:
    n = f"BVec_{l}"
    w(f"type {n} [{(l+7)//8}]byte")
    w(f"func (*{n}) BitLen() uint64 {{ return {l} }}")
    reg(n); fixedT.append(n)

# fixed containers with awkward Go layouts
FIX = {
    "FxA": "A uint8\n B uint64\n C uint32",
    "FxB": "A bool\n B uint16\n C bool\n D uint64",
    "FxC": "A [3]byte\n B [5]uint16\n C BVec_9",
    "FxD": "A FxA\n B [2]FxB\n C uint8",
    "FxE": "A [32]byte\n B [48]byte\n C [96]byte\n D uint64",
    "FxF": "A uint16",
    "FxG": "A Slot\n B Flag\n C Oct\n D Half\n E [3]Slot\n F [5]Flag\n G [33]Oct",
    "FxH": "A *uint64\n B *FxA\n C uint8\n D **uint16",
    "FxI": "A [4]bool\n B [3]*uint32\n C *[3]uint16\n D [2]*FxB",
    "FxJ": "A bool",
    "FxK": "A uint64\n B uint32\n C uint32\n D uint8\n E uint8\n F uint16\n G [7]uint64\n H BVec_257\n I uint8",
    "FxL": "A uint8\n B uint8\n C uint8\n D uint8\n E uint8\n F uint8\n G uint8\n H uint8\n I uint8",
    "FxM": "A [65]byte\n B [17]uint16\n C [9]uint32\n D [5]uint64\n E [33]bool",
}
for k, v in FIX.items():
    w(f"type {k} struct {{\n {v}\n}}"); reg(k); fixedT.append(k)

VAR = {
    "VrA": "A uint16\n B LU16_1024\n C uint8",
    "VrB": "A LByte_32",
    "VrC": "A LByte_100\n B LBool_33\n C LU64_9",
    "VrD": "A uint8\n B LByte_64\n C uint64\n D LU32_8\n E bool",
    "VrE": "A VrA\n B uint32\n C VrB\n D [2]VrA",
    "VrF": "A BList_9\n B BVec_9\n C BList_256\n D uint16",
    "VrG": "A *LByte_32\n B *VrA\n C uint8\n D *BList_17\n E **LU16_16",
    "VrH": "A [3]LByte_32\n B [2]BList_255\n C [1]VrB",
    "VrI": "A LU16_16\n B LU16_16\n C LU16_16\n D LU16_16\n E LU16_16",
    "VrJ": "A uint64\n B BList_2048\n C FxE",
    "VrK": "A LSlot_9\n B LOct_33\n C LFlag_40\n D LHalf_6",
}
for k, v in VAR.items():
    w(f"type {k} struct {{\n {v}\n}}"); reg(k); varT.append(k)

n = 0
for e, lims in [
    ("[32]byte", [1, 2, 3, 5, 16, 33, 64, 128, 8192, BIG]), ("[4]byte", [4, 9]), ("[48]byte", [3, 2048]), ("BVec_9", [5]), ("BVec_257", [3, 8]), (f"BList_{(1 << 64) - 1}", [3]), ("[3]uint16", [3, 17]),
    ("[5]bool", [4]), ("FxA", [1, 2, 4, 7, 33, BIG]), ("FxB", [3, 16, 1 << 16]), ("FxC", [5]), ("FxD", [2, 9]), ("FxE", [4]), ("FxF", [1, 6, 33, 100]), ("FxG", [4]), ("FxH", [3, 5]), ("FxI", [4]), ("FxJ", [5, 40]), ("FxK", [2]), ("FxL", [3]), ("FxM", [2]),
    ("VrA", [1, 2, 3, 8, BIG]), ("VrB", [1, 4, 17, 1 << 16]), ("VrC", [3, 9]), ("VrD", [5]), ("VrE", [2]), ("VrF", [4]), ("VrG", [3]), ("VrH", [2]), ("VrI", [3]), ("VrJ", [4]), ("VrK", [3]),
    ("LByte_32", [1, 2, 4, 9, 33, BIG]), ("LByte_3", [5]), ("LByte_1000", [6]), (f"LByte_{BIG}", [16]), ("LBool_5", [3, 8]), ("LU16_3", [2, 7]), ("LU64_4", [3, 40]),
    ("BList_9", [2, 5, 12]), ("BList_256", [3]), ("BList_1", [4]), ("[2]LByte_32", [3]), ("[2]BList_9", [4]), ("*uint64", [3, 9]), ("*uint8", [4, 33]), ("*FxA", [5]), ("*VrA", [4]), ("*LByte_32", [3]), ("**FxF", [4]), ("*bool", [5]), ("*[32]byte", [3]), ("[2]*VrB", [3]), ("[2]*FxB", [3]),
]:
    for l in lims:
        n += 1
        safe = e.replace("[", "Arr").replace("]", "_").replace("*", "P")
        mklist(f"L_{safe}_{l}", e, l)

# lists of lists of lists
mklist("LL_A", "L_LByte_32_4", 3)
mklist("LL_B", "L_VrB_4", 4)
mklist("LL_C", "LL_A", 2)
mklist("LL_D", "[2]LL_A", 2)
mklist("LL_E", "*LL_A", 3)
mklist("LL_F", "L_BList_9_2", 3)
mklist("LL_G", "L_FxA_4", 3)
mklist("LL_H", "LL_B", 1 << 40)

# squash, embedding, omission
SQ = {
    "SqA": "A uint8\n D *uint32 `ssz:\"omit\"`\n B uint64\n C uint32",
    "SqB": "D uint32\n E uint8 `ssz:\"omit\"`\n SqA\n More SqA `ssz:\"squash\"`",
    "SqC": "Foo SqA `ssz:\"squash\"`\n SqA\n X SqB `ssz:\"squash\"`\n Bar SqA `ssz:\"squash\"`\n SqB",
    "SqD": "A uint8\n VrA\n Z LByte_32\n In VrC `ssz:\"squash\"`\n M map[string]int `ssz:\"omit\"`\n Y uint16",
    "SqE": "SqD\n Q SqC `json:\"q\" ssz:\"foo,squash\"`\n O LByte_32 `ssz:\"omit\"`\n T VrB",
    "SqF": "O string `ssz:\"omit\"`\n A uint16\n P [3]uint64 `ssz:\"omit\"`\n B uint8\n Q chan int `json:\"-\" ssz:\"x,omit\"`\n C LU16_16\n R func() `ssz:\"omit,squash\"`",
    "SqG": "LByte_32\n BVec_9\n Slot\n A uint8",
    "SqH": "SqF `ssz:\"omit\"`\n SqA `json:\"x\"`\n B SqF",
    "SqI": "A SqG `ssz:\"squash\"`\n B struct {\n X uint8\n Y LU64_4\n Z struct{ W uint16 } `ssz:\"squash\"`\n} `ssz:\"squash\"`",
    "SqJ": "*FxA\n B uint8\n *VrB\n C FxF `ssz:\"squash\"`",
    "SqK": "O [5]byte `ssz:\"omit\"`\n VrA\n O2 uint8 `ssz:\"omit\"`\n L L_FxA_4\n O3 *VrA `ssz:\"omit\"`",
    "SqL": "A SqK `ssz:\"squash\"`\n B SqK\n C LByte_2",
    "SqM": "A EmptyC\n EmptyC\n B uint16 `ssz:\"\"`\n C uint8 `json:\"omit\"`",
    "SqN": "A uint8 `ssz:\"omitted\"`\n B uint8 `ssz:\" omit\"`\n C uint16 `ssz:\"squashed\"`\n D VrA `ssz:\"OMIT\"`",
    "SqO": "A L_VrB_4 `ssz:\"omit\"`\n B L_VrB_4\n C *VrB `ssz:\"omit\"`\n D *VrB",
}
w("type prA struct {\n x uint16\n Y LU16_16\n o string `ssz:\"omit\"`\n z [3]uint8\n}")
w("type prB struct {\n A uint8\n b uint32\n c *uint16\n}")
SQ["SqP"] = "a uint8\n prA\n b *prB\n C prA `ssz:\"squash\"`\n d LByte_32\n *prB\n e prA"
SQ["SqQ"] = "prB\n c uint64\n o uint8 `ssz:\"omit\"`\n D prB\n e [2]prB\n f Flag\n g BVec_9"
SQ["SqR"] = "x SqQ `ssz:\"squash\"`\n y SqP `ssz:\"squash\"`\n z LByte_3"
w("type EmptyC struct{}"); reg("EmptyC")
w("type OnlyOmit struct {\n A uint8 `ssz:\"omit\"`\n B LByte_32 `ssz:\"omit\"`\n}"); reg("OnlyOmit")
SQFIX = {"SqA", "SqB", "SqC", "SqQ"}
for k, v in SQ.items():
    w(f"type {k} struct {{\n {v}\n}}"); reg(k)
    (fixedT if k in SQFIX else varT).append(k)
mklist("L_SqA", "SqA", 5)
mklist("L_SqQ", "SqQ", 5)
mklist("L_SqP", "SqP", 3)
mklist("L_prA", "prA", 3)
mklist("L_SqC", "SqC", 2)
mklist("L_SqD", "SqD", 3)
mklist("L_SqF", "SqF", 3)
mklist("L_SqK", "SqK", 4)
mklist("L_SqO", "SqO", 3)

# shapes like the consensus objects the library was made for
BEACON = """
type Checkpoint struct {
 Epoch Slot
 Root [32]byte
}
type AttestationData struct {
 Slot Slot
 Index uint64
 BeaconBlockRoot [32]byte
 Source Checkpoint
 Target Checkpoint
}
type Attestation struct {
 AggregationBits BList_2048
 Data AttestationData
 CustodyBits BList_2048
 Signature [96]byte
}
type Attestations []Attestation
func (*Attestations) Limit() uint64 { return 128 }
type Validator struct {
 Pubkey [48]byte
 WithdrawalCredentials [32]byte
 EffectiveBalance uint64
 Slashed bool
 ActivationEligibilityEpoch Slot
 ActivationEpoch Slot
 ExitEpoch Slot
 WithdrawableEpoch Slot
}
type Registry []*Validator
func (*Registry) Limit() uint64 { return 1 << 40 }
type Balances []uint64
func (*Balances) Limit() uint64 { return 1 << 40 }
type HistoricalRoots [][32]byte
func (*HistoricalRoots) Limit() uint64 { return 1 << 24 }
type BlockBody struct {
 RandaoReveal [96]byte
 Graffiti [32]byte
 Attestations Attestations
 Other L_VrD_5
}
type Block struct {
 Slot Slot
 ParentRoot [32]byte
 StateRoot [32]byte
 Body BlockBody
 Signature [96]byte
}
type State struct {
 GenesisTime uint64
 Slot Slot
 BlockRoots [64][32]byte
 HistoricalRoots HistoricalRoots
 Validators Registry
 Balances Balances
 Randao [65][32]byte
 Slashings [33]uint64
 PrevAttestations Attestations
 JustificationBits BVec_4
 Finalized Checkpoint
}
"""
w(BEACON)
for k in "Checkpoint AttestationData Attestation Attestations Validator Registry Balances HistoricalRoots BlockBody Block State".split():
    reg(k)
fixedT += ["Checkpoint", "AttestationData", "Validator"]
varT += ["Attestation", "Attestations", "BlockBody"]
systematic = len(names)

# --- random part: depends on the seed ---------------------------------------------------------
basic = ["bool", "uint8", "uint16", "uint32", "uint64", "Slot", "Flag", "Oct", "Half"]
deep = {}
counter = [0]
sizeguess = {}


def anyT(d, allow_ptr=True):
    x = R.random()
    if x < 0.22:
        return R.choice(basic)
    if x < 0.34:
        return R.choice(fixedT)
    if x < 0.72:
        return R.choice(varT)
    if x < 0.86 and d > 0:
        k = R.choice([1, 1, 2, 2, 3, 4, 5, 8, 31, 33]) if R.random() < 0.8 else R.choice([16, 32, 64, 65])
        e = anyT(d - 1) if k <= 5 else R.choice(basic + ["byte"])
        return f"[{k}]{e}"
    if allow_ptr and d > 0:
        return "*" + anyT(d - 1)
    return R.choice(basic)


def randContainer(i):
    name = f"R{i}"
    k = R.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 12, 17])
    fs = []
    embedded = set()
    for j in range(k):
        x = R.random()
        if x < 0.08:
            fs.append(f"O{j} {R.choice(['uint8','uint64','[3]byte','string','map[int]int','*uint32','LByte_32','FxA','[2]VrA','interface{}','[]int','LU64_4','L_VrB_4'])} `ssz:\"{R.choice(['omit','omit','a,omit','omit,b'])}\"`")
        elif x < 0.16:
            e = R.choice([t for t in list(FIX) + list(VAR) + list(SQ) + randoms])
            if e in embedded or e == "EmptyC":
                continue
            embedded.add(e)
            fs.append(e)
        elif x < 0.24:
            e = R.choice(list(FIX) + list(VAR) + list(SQ) + randoms)
            fs.append(f"S{j} {e} `ssz:\"{R.choice(['squash','squash','a,squash'])}\"`")
        else:
            fs.append(f"{'f' if R.random() < 0.12 else 'F'}{j} {anyT(2)}")
    w(f"type {name} struct {{\n " + "\n ".join(fs) + "\n}")
    reg(name)


randoms = []
for i in range(110):
    # keep nesting in check: only earlier, small ones are reused
    randContainer(i)
    if i % 3 == 0 and len(randoms) < 14:
        randoms.append(f"R{i}")
    if i % 4 == 1:
        w(f"type RL{i} []{R.choice(['', '', '*'])}R{i}")
        w(f"func (*RL{i}) Limit() uint64 {{ return {R.choice([1,2,3,4,5,7,8,9,16,33,1<<20,BIG])} }}")
        reg(f"RL{i}")
        if i < 40:
            varT.append(f"RL{i}")

# the same lists with pointers to their elements
twins = []
for nm, e, l in lists:
    w(f"type PT_{nm} []*{e}")
    w(f"func (*PT_{nm}) Limit() uint64 {{ return {l} }}")
    twins.append(nm)

print("// Code generated by tools/gen_types.py; DO NOT EDIT.\n", file=out)
print("package uni\n", file=out)
print('import "reflect"\n', file=out)
for l in lines:
    print(l, file=out)
print(f"\nconst systematicCount = {systematic}\n", file=out)
print("var named = []reflect.Type{", file=out)
for n in names:
    print(f"\treflect.TypeOf((*{n})(nil)).Elem(),", file=out)
print("}", file=out)
print("\nvar ptrTwin = map[reflect.Type]reflect.Type{", file=out)
for n in twins:
    print(f"\treflect.TypeOf({n}(nil)): reflect.TypeOf(PT_{n}(nil)),", file=out)
print("}", file=out)
