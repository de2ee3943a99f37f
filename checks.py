"""Which monitors decide which property."""

BASE_RULE = ("Seeded structure-aware generation over index types, scalar types, shapes, patterns and storage forms; "
             "each case runs the real code and compares every result with an independent model. Distinct counts different "
             "hashes of the generated structure together with the storage features or the operation chosen; ")

def simple(binary, rule, variants=("dev",), thorough=("dev", "release"), quick=3, **kw):
    return dict(rule=BASE_RULE + rule, stages=[dict(bin=binary, variants=list(variants), variants_thorough=list(thorough),
                                                    quick={"dev": quick, "release": quick}, **kw)],
                assumptions=["the monitors' model and generators are correct", "the input domain is sampled, not exhausted"])

CHECKS = {}
for k, rule in {
    1: "one path of conversions of one matrix per hash.",
    2: "one stored structure and in-place operation per hash.",
    3: "one stored structure and operation per hash.",
    4: "one stored structure and vector form per hash.",
    5: "one pair of stored structures per hash.",
    6: "one pair of stored structures and operation per hash.",
    7: "one pair of stored structures per hash.",
    8: "one stored structure per hash.",
    9: "one arrangement of blocks per hash.",
    10: "one stored structure and selection per hash.",
    11: "one stored structure and read per hash.",
    12: "one misfitting request per hash.",
    13: "one history of dictionary operations per hash.",
    14: "one graph per hash.",
    15: "one graph per hash.",
    16: "one graph and start per hash.",
    17: "one stored structure and rendering per hash.",
}.items():
    CHECKS["C%02d" % k] = simple("c%02d" % k, rule)
CHECKS["C18"] = simple("c18", "one stored structure near an index limit per hash.", ("dev", "release"))
CHECKS["C23"] = simple("c23", "one chain of operations per hash.", ("dev", "release"), quick=1.5)
CHECKS["C24"] = simple("c24", "one stored structure per hash.", ("dev",), ("dev",), quick=1)
CHECKS["C24"]["assumptions"].append("the instrumented index and scalar types see every operation on caller data; work on internal types shows in processor time")
CHECKS["C25"] = simple("c25", "one set of constructor arguments per hash.")
CHECKS["C26"] = simple("c26", "one set of kernel arguments per hash.")
CHECKS["C27"] = simple("c27", "one stored structure with special values per hash.")
CHECKS["C19"] = dict(
    rule="Valid, slightly damaged and wild arguments for every public function and method; AddressSanitizer, Miri and the checks "
         "inside unchecked operations watch the execution. Distinct counts different generator states, one per case.",
    assumptions=["Miri and AddressSanitizer report the undefined behaviour they are made for", "the input domain is sampled, not exhausted"],
    stages=[
        dict(bin="c19", variants=["dev", "asan", "miri"], mult={"miri": 0.0012}),
        dict(bin="c23", variants=["asan"], variants_thorough=["asan", "miri"], mult={"asan": 0.3, "miri": 0.0005}),
    ])

EIGS = ["the recorded extents of the solver's buffers are those ARPACK documents", "the input domain and the schedules are sampled, not exhausted"]
CHECKS["C20"] = dict(
    rule="Matrices with known, separated spectra and others, solved by the real code and native library; every returned pair is judged "
         "by its residual, the dominant ones are looked up. Distinct counts different matrices.",
    assumptions=EIGS, stages=[dict(bin="c20", crate="harness_eigs", variants=["dev", "release"])])
CHECKS["C21"] = dict(
    rule="Threads that compute at the same time with injected delays; link-time wrappers of the native entry points watch for overlap, and "
         "ThreadSanitizer, which also instruments the native library, for races. Distinct counts different orders in which computations began.",
    assumptions=EIGS, stages=[dict(bin="c21", crate="harness_eigs", variants=["dev", "release", "tsan"], mult={"dev": 0.5, "tsan": 0.5})])
CHECKS["C22"] = dict(
    rule="Every small size and many others, finite and odd entries, valid and malformed matrices; the wrappers compare each buffer given to the "
         "native library with the extent it uses, AddressSanitizer instruments the native code. Distinct counts different requests.",
    assumptions=EIGS, stages=[dict(bin="c22", crate="harness_eigs", variants=["dev", "asan", "valgrind"], mult={"valgrind": 0.02})])

CHECKS["C28"] = dict(
    rule="Cases of eight other monitors, which know the right answers, run after calls that failed or panicked and on several threads at once; "
         "threads call everything on shared matrices, under ThreadSanitizer too; arithmetic yields to other threads now and then. Distinct counts different "
         "histories, groups of threads and shared structures.",
    assumptions=["the monitors' models and generators are correct", "histories and schedules are sampled, not exhausted"],
    stages=[
        dict(bin="c28", variants=["dev"], variants_thorough=["dev", "release"]),
        dict(bin="c28s", variants=["tsan"], mult={"tsan": 0.5}),
    ])
CHECKS["C29"] = dict(
    rule="A counting allocator watches every call on inputs that punish room per pair of lines, refused calls, matrices with dimensions up to 10^17, products whose multiply-adds "
         "meet, long lives of one object, and the eigenvalue routine. Distinct counts different stored structures.",
    assumptions=["the allocator sees every request for memory", "the input domain is sampled, not exhausted"],
    stages=[
        dict(bin="c29", variants=["dev"], variants_thorough=["dev", "release"]),
        dict(bin="c29e", crate="harness_eigs", variants=["release"]),
    ])
