"""Texts for MANIFEST.json."""
_T = "TLA+/TLC: exhaustive model checking of %s; model behaviours and random scenarios replayed into the real code, recorded traces validated by TLC against %s"
_A = (" Trusted: TLC, the driver (harness/%s), and that its recording upstream resources see everything the code does to them; negative controls "
      "(falsified traces that must be rejected) guard against a vacuous validation. Bounded: model constants as in the evidence file; the real code is "
      "judged on the scenarios that were driven, every one of them against the specification's full state.")
def t(a, b=None):
    return _T % (a, b or a)
TECH = {
 "C01": t("Pool, Buddy, Arena and Contig, refining the abstract Heap", "Heap"),
 "C02": t("Pool, Buddy, Arena and Contig", "Heap (alignment guards)"),
 "C03": t("the resource specifications", "Heap (upstream bookkeeping guards)"),
 "C04": t("the resource specifications with failing upstreams", "Heap (failure guards) and the precise specifications"),
 "C05": t("Pool"), "C06": t("Buddy"), "C07": t("Arena"), "C08": t("Contig"), "C09": t("Route"), "C10": t("Debug"),
 "C11": t("Instr"), "C12": t("Instr (monitor)"), "C13": t("Sync (all interleavings, mutual exclusion and liveness)", "Sync"),
 "C16": t("Owner (allocator operations)", "Owner"), "C17": t("Owner (unique pointer operations)", "Owner"),
 "C18": t("DeviceVector (on Seq) and Big (sizes beyond 31 bits)", "DeviceVector and Big"), "C19": t("Appends (every interleaving of the appenders' atomic steps)", "Appends (linearizability), under a deterministic scheduler"),
 "C20": t("Atomic (every interleaving of two or three threads' operations)", "Atomic (linearizability), under a deterministic scheduler"),
 "C21": t("StaticVector (on Seq)", "StaticVector"), "C22": t("Cells (a store of cells named by handles)", "Cells"),
 "C23": t("Cells (a store of cells named by handles) and Iterators (integer positions; the random access laws)", "Cells and Iterators"),
 "C24": t("Copy (MCCopy) and Big (sizes beyond 32 bits)", "Copy and Big"), "C25": t("Copy (MCCopy) and Big (sizes beyond 32 bits)", "Copy and Big"), "C26": t("Copy (MCCopy) and Big (sizes beyond 32 bits)", "Copy and Big"), "C27": t("Copy (MCCopy)", "Copy"), "C28": t("Copy (MCCopy) and Edm (MCEdm)", "Copy and Edm, device memory being protected"),
 "C29": t("Deferred (programs of transfers under an executor of any pace, wrong ones refuted) and Copy (MCCopy), Edm (MCEdm)", "Copy and Edm, the transfers deferred"),
 "C30": t("Edm (MCEdm)", "Edm"), "C31": t("Edm (MCEdm), Appends and Big (sizes beyond 32 bits)", "Edm and Big, and Appends under a deterministic scheduler"), "C32": t("Edm (MCEdm) and Big (sizes beyond 32 bits)", "Edm and Big"),
 "C33": t("Vendor (MCVendor: a reference implementation with device switches and failures anywhere)", "Vendor, on stand-ins for the run-times"),
 "C34": t("Vendor (MCVendor: a reference implementation with transfers carried out at any time; wrong ones refuted)", "Vendor, on stand-ins for the run-times that put transfers off"),
 "C35": t("Vendor (MCVendor: a reference implementation of shared ownership)", "Vendor, on stand-ins for the run-times"),
 "C14": t("Equality"), "C15": t("Route and the other resource specifications, with trivial requests", "Heap, Route and Host"),
}
DRV = dict({"C%d" % i: "copy_driver.cpp, mock_copy.hpp" for i in range(24, 30)}, **{"C28": "copy_driver.cpp, edm_driver.cpp, mock_copy.hpp", "C29": "copy_driver.cpp, edm_driver.cpp, mock_copy.hpp", "C24": "copy_driver.cpp, mock_copy.hpp, big_driver.cpp", "C25": "copy_driver.cpp, mock_copy.hpp, big_driver.cpp", "C26": "copy_driver.cpp, mock_copy.hpp, big_driver.cpp", "C30": "edm_driver.cpp", "C31": "edm_driver.cpp, big_driver.cpp, conc_edm_driver.cpp, sched.cpp", "C32": "edm_driver.cpp, big_driver.cpp, mock_copy.hpp", "C13": "sync_driver.cpp", "C14": "eq_driver.cpp", "C16": "owner_driver.cpp", "C17": "owner_driver.cpp", "C18": "dvec_driver.cpp, big_driver.cpp", "C19": "conc_driver.cpp, sched.cpp", "C21": "static_driver.cpp", "C22": "fixed_driver.cpp", "C23": "view_driver.cpp, iter_driver.cpp", "C20": "atomic_driver.cpp, sched.cpp, mock/", "C33": "vendor_driver.cpp, mock/", "C34": "vendor_driver.cpp, mock/", "C35": "vendor_driver.cpp, mock/"})
_W = " Schedules are explored at the granularity of single memory accesses (bounded preemptions exhaustively, then random ones), sequentially consistent: effects of weaker memory models are outside."
_M = " The back ends' own sources are compiled against stand-ins for the run-times (there is no device here); what the real run-times and compilers do is outside."
MORE = {"C19": _W, "C20": _W + " The POSIX implementation and those of CUDA, HIP and SYCL (on stand-ins for their intrinsics, memory orders not judged) are explored concurrently; dummy_device_atomic_ref and vecmem::atomic are driven sequentially.",
        "C33": _M, "C34": _M, "C35": _M}
NOTES = {
 i: "Every behaviour of the specification within the stated bounds satisfies the property; every recorded execution of the real code is a behaviour of it."
    + _A % DRV.get(i, "alloc_driver.cpp") + MORE.get(i, "")
 for i in TECH
}
NA = {}
