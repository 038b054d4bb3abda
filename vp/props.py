"""The claimed properties: which analyses decide each, and with what bounds."""
import witness as WIT
import shared as SH
ASSUME = ["LLVM IR emitted by clang 18 at -O1 with all optimisation passes disabled (plus SROA) represents the source",
          "little-endian x86-64, SSE2 target for the SIMD build", "libc/libstdc++ leaf functions (memmove, memset, operator new/delete, throw helpers) behave as modelled in the analyser",
          "callers respect the documented preconditions (valid ranges; bit positions below the word width)"]
ALGO = "Abstract interpretation of the instantiated algorithm's LLVM IR: every bit of memory is tracked as a boolean function of the bits on entry (canonical BDDs), word counts as affine expressions over unbounded parameters, loops summarised inductively; partitions enumerate the bit positions inside the words (complete for 8-bit words, boundary positions plus a seeded sample for wider words). "


def S(s, cfg="scalar", cap=(1024, 40000), h="algo", W=0):
    return {"h": h, "s": s, "cfg": cfg, "cap": cap, "W": W}


def both(s, cap=(1024, 40000), hw=None):
    return [S(s, "scalar", cap), S(s, "hwy", hw or (cap[0] // 4, cap[1] // 4))]


PROPS = {
    "C01": dict(suites=both("copy") + both("move", (512, 40000)), explain=ALGO + "Obligation: destination bit i equals source bit i, source unchanged, returned iterator is the destination end, no access outside the two ranges' words, no bit outside the destination changed."),
    "C02": dict(suites=both("copy_backward"), explain=ALGO + "Obligation: the range ending at the given destination end receives the source bits in order; returned iterator is its start."),
    "C03": dict(suites=[S("copy_overlap"), S("move_overlap", cap=(512, 40000)), S("copy_backward_overlap"), S("transform1_overlap", cap=(512, 40000)), S("transformnot_overlap", cap=(256, 40000)), S("transformnot_overlap", "hwy", (256, 40000)), S("transform2_overlap", cap=(256, 40000))], explain=ALGO + "Source and destination are the same array displaced by 0..2 words and any bit offset (forward for copy/move, backward for copy_backward, in place for transform)."),
    "C04": dict(suites=both("fill", hw=(1024, 40000)), explain=ALGO + "Obligation: every bit of the range has the value, every other bit is unchanged."),
    "C05": dict(suites=both("equal", (1024, 8000)), explain=ALGO + "Obligation: on every path returning true all bit pairs are established equal; on every path returning false some pair inside the range is established different."),
    "C06": dict(suites=both("find", (1024, 8000), hw=(1024, 16000)), explain=ALGO + "Obligation: every position before the returned one was established to differ from the value and the returned one to equal it, or the end is returned and no position matches."),
    "C07": dict(suites=both("count") + [S("w:popcnt", cap=(2000, 100000), h="prim:popcnt")], explain=ALGO + "Obligation: the result is the affine sum of exactly the range's bits (or their complement)."),
    "C08": dict(suites=both("transform1") + both("transformnot", hw=(1024, 40000)) + [S("transform2"), S("transform2", "hwy", (256, 8000))], explain=ALGO + "The functor is an uninterpreted bitwise operator; obligation: destination bit i is f(source bits i)."),
    "C09": dict(suites=both("shift_left", hw=(1024, 40000)), explain=ALGO + "Range and shift distance both unbounded."),
    "C10": dict(suites=both("shift_right", hw=(1024, 40000)), explain=ALGO + "Range and shift distance both unbounded."),
    "C11": dict(suites=both("rotate", (4096, 40000)), explain=ALGO + "Range lengths are concrete here (up to 43 words)."),
    "C12": dict(suites=both("reverse", hw=(1024, 40000)), explain=ALGO),
    "C13": dict(suites=both("swap_ranges"), explain=ALGO),
}

OOB = {"oob-read", "oob-write", "use-after-free", "ub-shift", "ub-div", "ub-align", "ub-unreachable", "ub", "assert", "double-free", "bad-free", "write-to-const", "exception"}
MUTATING = ["copy", "move", "copy_backward", "fill", "transform1", "transformnot", "transform2", "shift_left", "shift_right", "rotate", "reverse", "swap_ranges", "copy_overlap", "copy_backward_overlap"]
ALLS = MUTATING + ["equal", "find", "count"]
SIMD = ["fill", "find", "transformnot", "shift_left", "shift_right", "reverse"]
PROPS["F01"] = dict(kinds={"frame", "read-only", "global-write"}, suites=[S(s, "scalar", (512, 20000)) for s in MUTATING] + [S(s, "hwy", (512, 20000)) for s in SIMD if s != "find"] , explain=ALGO + "Obligation per store and per final object: a bit outside the destination range holds its entry value.")
PROPS["F02"] = dict(kinds=OOB, suites=[S(s, "scalar", (512 if s not in ("find", "equal") else 256, 20000 if s not in ("find", "equal") else 4000)) for s in ALLS] + [S(s, "scalar+raw", (128, 2000)) for s in ("copy", "rotate", "shift_left", "reverse", "fill")] + [S(s, "hwy", (512, 20000 if s != "find" else 4000)) for s in SIMD], explain=ALGO + "Obligation per load, store, shift, division, assertion and vector access: inside the live object, aligned when the instruction demands it, shift below the width, assertion true. Objects are exactly as large as the ranges need.")
PROPS["S01"] = dict(budget=(400, 3000), suites=[S(s, "hwy", ((768 if s == "shift_left" else 2048) if s in SIMD else 128, 40000 if s in SIMD else 4000) if s != "find" else (512, 16000)) for s in ALLS if "_overlap" not in s] + [S(s, c, (128, 8000) if s != "find" else (32, 2000)) for c in ("hwy+avx2", "hwy+avx512") for s in SIMD], explain=ALGO + "The specification used for the scalar build is applied to the build with vector intrinsics, whose instructions (SSE2 as in the test build, and AVX2 and AVX-512 as a user's -march selects them) are interpreted lane by lane; word counts are concrete here and chosen around the vector and cache-line sizes, base addresses range over their residues modulo 64.")

NOTE = "Every analysed partition is decided for all contents and (where the evidence says the loops were summarised) all range lengths; the partitions are the bit positions inside the words, complete for 8-bit words at the thorough tier, otherwise the boundary positions plus a seeded sample. Assumes the IR lowering and the modelled libc leaf functions."
NOT_APPLICABLE = []

# ---- bit_vector
VEC = "Abstract interpretation of bit_vector's instantiated LLVM IR together with the standard vector beneath it. The vector under test has N words (unbounded) less j bits (every j), built through the public interface, with exact, reserved or oversized storage; the observable state after the operation (size, bits, begin/end, capacity, storage) is compared with the specification for every path, also through a copy. Heap objects are tracked (bounds, initialisation, release). "


def V(op, cap=(60, 20000), cfg="scalar"):
    return S("v:" + op, cfg, cap, "vec")


def VB(*ops, cap=(60, 20000), hw=None):
    return [V(o, cap) for o in ops] + ([V(o, hw, "hwy") for o in ops] if hw else [])


CT = ["ctorwords", "ctorcount", "ctorcountv", "ctorbool", "ctorstr", "ctorilw", "ctorilb", "ctorilv", "ctordef"]
PROPS["B01"] = dict(suites=VB(*CT, cap=(400, 4000)) + [V("ctorbits", (120, 4000)), V("ctorbits", (120, 4000), "hwy")], explain=VEC)
PROPS["B02"] = dict(suites=VB("pushback", "popback", "pushpop", "shrinkpush", "+pushback", "+popback", cap=(400, 4000)), explain=VEC)
PROPS["B03"] = dict(suites=[V("insert1", (160, 8000)), V("insertn", (16, 4000)), V("insertr", (14, 4000)), V("+insert1", (200, 8000)), V("+insertn", (200, 4000)), V("+insertr", (200, 4000)), V("insert1", (200, 8000), "hwy"), V("insertn", (200, 8000), "hwy"), V("insertr", (200, 8000), "hwy")], explain=VEC)
PROPS["B04"] = dict(suites=[V("erase1", (250, 8000)), V("eraser", (250, 8000)), V("erasepush", (200, 8000)), V("+erase1", (200, 8000)), V("+eraser", (200, 8000)), V("erase1", (200, 8000), "hwy"), V("eraser", (400, 8000), "hwy"), V("eraseinsert", (400, 8000), "hwy"), V("eraseinsert", (2, 400))], explain=VEC)
PROPS["B05"] = dict(suites=VB("resize", "resizev", cap=(250, 8000), hw=(200, 4000)) + [V("resizeback", (200, 4000), "hwy"), V("+resize", (200, 4000)), V("+resizev", (200, 4000))], explain=VEC)
PROPS["B06"] = dict(suites=VB("reserve", "shrink", "shrinkpush", "clear", cap=(400, 8000)) + [V("+shrink"), V("+clear"), V("+reserve", (40, 2000))], explain=VEC)
PROPS["B07"] = dict(suites=VB("at", "atc", "index", "indexc", "front", "frontc", "back", "backc", "store", "flipat", "iters", cap=(400, 8000)), explain=VEC)
PROPS["B08"] = dict(suites=VB("copyctor", "copyctora", "movector", "movectora", "moveassign", "copyassign", "selfassign", cap=(400, 8000)) + [V("+copyctor", (12, 2000)), V("+movector", (60, 4000)), V("+moveassign", (60, 4000))], explain=VEC)
ARM = ["ctorwords", "ctorcount", "ctorcountv", "ctorbool", "ctorstr", "pushback", "insert1", "resize", "resizev", "reserve", "shrink", "copyassign"]
PROPS["B09"] = dict(suites=VB(*[o + "_arm" for o in ARM], cap=(120, 4000)) + [V("insertn_arm", (10, 2000)), V("insertr_arm", (8, 2000)), V("ctorbits_arm", (40, 1000)), V("insertn_arm", (200, 2000), "hwy"), V("insertr_arm", (200, 2000), "hwy")], explain=VEC + "Every allocation made inside the operation may fail; each failing path must end with the exception caught by the caller, no heap object lost and the vector unchanged.")
PROPS["B10"] = dict(kinds={"narrowing"}, suites=[S(s, "scalar", (16, 200)) for s in ALLS + ["move"] if s != "rotate"] + [V(o, (8, 100)) for o in ["ctorwords", "ctorcount", "ctorcountv", "ctorbits", "pushback", "popback", "insert1", "insertn", "insertr", "erase1", "eraser", "resize", "resizev", "reserve", "shrink", "clear", "at", "index", "iters", "copyctor", "movector", "copyassign"]],
                    explain=ALGO + "Obligation: every conversion of an affine size to a narrower integer or to floating point is provably exact on that path, or only the low bits of its result are used.")
PROPS["F03"] = dict(kinds=OOB | {"leak", "uninit", "storage", "capacity"}, suites=[V(o, (60, 2000)) for o in ["ctorwords", "ctorcount", "ctorcountv", "ctorbits", "ctorbool", "ctorstr", "pushback", "popback", "insert1", "erase1", "eraser", "erasepush", "resize", "resizev", "reserve", "shrink", "shrinkpush", "clear", "at", "index", "front", "back", "copyctor", "movector", "moveassign", "copyassign", "selfassign", "pushpop"]] + [V("insertn", (6, 1000)), V("insertr", (5, 1000))] + [V(o, (100, 2000), "hwy") for o in ["insertn", "insertr", "eraser", "eraseinsert", "resizeback"]], explain=VEC)

# ---- iterators, references, values and word primitives
PRIM = "Abstract interpretation of the operation's LLVM IR: words are vectors of boolean functions of the entry bits (canonical BDDs), word indices affine expressions over unbounded parameters; partitions enumerate the bit positions and lengths (all of them for 8-bit words, boundary values and a seeded sample for wider words at the quick tier). Every path's result, memory and accesses are compared with the definition of the operation. "


def Wd(g, cap=(0, 0), cfgs=("scalar",)):
    return [S("w:" + g, c, cap, "prim:" + g) for c in cfgs]


RAW = ("scalar", "scalar+raw")
PROPS["I01"] = dict(suites=Wd("iter", cfgs=RAW), explain=PRIM + "Iterators over std::vector iterators and over raw word pointers are analysed.")
PROPS["I02"] = dict(suites=Wd("ptr"), explain=PRIM)
PROPS["R01"] = dict(suites=Wd("ref"), explain=PRIM)
PROPS["V01"] = dict(suites=Wd("val"), explain=PRIM)
PROPS["V02"] = dict(suites=Wd("io"), explain=PRIM + "The operators are templates over the stream's traits; they are instantiated with a stand-in stream whose next character, condition and failure are unknowns.")
PROPS["W01"] = dict(suites=Wd("count") + Wd("perm"), explain=PRIM + "Deposit and extract masks are concrete (all 256 for 8-bit words).")
PROPS["W02"] = dict(suites=Wd("field"), explain=PRIM)
PROPS["W03"] = dict(suites=Wd("wide") + Wd("mul"), explain=PRIM + "Shift counts are enumerated; for products both factors are unknown for 8-bit words, one factor is concrete for wider words.")
PROPS["W04"] = dict(suites=Wd("words", cfgs=RAW) + Wd("wshift", cfgs=RAW), explain=PRIM)

PROPS["W05"] = dict(suites=Wd("popcnt", (0, 0)), explain=PRIM + "The library is analysed once per processor feature set reported by cpuid and xgetbv (modelled as unknowns); the vector and assembly instructions it uses are interpreted lane by lane, buffers have every length up to several vector blocks and every misalignment, and the result is compared as a linear function of the bits of the buffer.")

# ---- allocators
PROPS["B13"] = dict(suites=Wd("dbg", (0, 0)), explain=PRIM + "The text is the one std::string produced by debug_string, its bodies analysed along with it; every character must be the one the definition gives for the unknown bits.")
PROPS["B12"] = dict(kinds={"allocator", "leak", "double-free", "bad-free", "use-after-free"}, suites=[S("v:" + o, "scalar", c, "vec:alloc") for o, c in [(x, (40, 2000)) for x in ["ctorwords", "ctorcount", "ctorcountv", "ctorbool", "ctorilw", "ctorilb", "ctorilv", "copyctor", "copyctora", "movector", "movectora", "moveassign", "copyassign", "pushback", "insert1", "eraser", "resizev", "reserve", "shrink", "shrinkpush", "clear"]] + [("ctorbits", (20, 500)), ("insert1_arm", (10, 500)), ("resizev_arm", (10, 500)), ("ctorwords_arm", (20, 500)), ("ctorbits_arm", (10, 200))]] + [S("v:" + o, "hwy", (12, 300), "vec:alloc") for o in ("insertn", "insertr")],
                    explain=VEC + "The allocator is a stand-in that carries an identity and does not propagate on assignment: each heap object is owned by the allocator that made it, each release must name the same allocator, and the finished vectors' storage must belong to their allocators.")

# ---- type level
WITT = "type-level witnesses: snippets the type checker must accept or reject, instantiated for every word type"
WITN = "Decided by the compilers' type checkers on the current headers; a snippet stands for the uses written in it, for the four word types. Behaviour of the accepted programs is the subject of the other properties."
WITE = "Each snippet is instantiated for the four word types and type-checked against the current headers; a violating snippet must be rejected while its control, the same use with the violation removed, must be accepted. Obligation: one per snippet, word type and compiler variant."
for _p in ("T01", "T02", "B11"):
    PROPS[_p] = dict(lints=[WIT.lint(_p)], explain=WITE, technique=WITT, note=WITN, assumptions=["the installed compilers implement the language rules"])

# ---- concurrency: no hidden shared state
PROPS["P01"] = dict(kinds={"read-only", "global-write", "shared-state"}, lints=[SH.lint], suites=[S("find", "scalar", (24, 4000))] + [S(s, "scalar", (96, 4000)) for s in ("count", "equal", "copy", "transform2", "copy_backward", "rotate", "shift_left", "reverse")] + [S("find", "hwy", (12, 2000))] + [S(s, "hwy", (48, 2000)) for s in ( "transformnot", "reverse")] + VB("constread", cap=(300, 8000)) + [V("+constread", (4, 400))] + [S("w:popcnt", cap=(200, 10000), h="prim:popcnt")],
                    technique="effect analysis of the compiler IR: write effects on variables with static storage duration, and abstract interpretation recording the objects stored to",
                    explain="Two rules on the IR. Every variable with static storage duration that BitLib's instantiated code owns is found, its address is followed through calls, and each instruction that may write it must be dominated by the arm of a one-time guard or by taking a lock, or be atomic, or the variable thread-local or constant. Besides, the abstract interpreter records every object stored to: operations on const vectors (element access, iterators, copying) and the sources of algorithms must not be stored to at all, not even with the value they hold.",
                    note="Decides the absence of hidden shared state, from which freedom of data races between operations on disjoint words follows; the interleavings themselves are not enumerated. Variables are those of the instantiations in the harness (all algorithms and members, four word types, both configurations).")
