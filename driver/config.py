"""Per property: which proof harnesses are run, and how.

A pass is (filters, extra Kani flags, CBMC flags, time limit in s). `plain` passes decide: their
harnesses assert the specification after a call, for all inputs. `contract` passes have Kani check
the contracts that are attached to the functions in /repo, frame conditions included.
"""

# For harnesses over a whole symbolic position: the checks that Kani adds by itself (pointers,
# overflow, ...) and its reachability probes are left to the harnesses of C19.
LEAN = ["--no-memory-safety-checks", "--no-overflow-checks", "--no-assertion-reach-checks"]


def light(pid, bits=9):
    return {
        "plain": [([f"{pid}::"], [], [], 600)],
        "contract": [([f"{pid}::"], [], ["--object-bits", str(bits)], 600)],
    }



def whole_position(pid, contract=()):
    return {"plain": [([f"{pid}::"], LEAN, [], 700)], "contract": list(contract)}


PROPERTIES = {f"C{i:02d}": light(f"c{i:02d}") for i in range(1, 9)}
PROPERTIES["C09"] = whole_position("c09", [
    (["c09::light::"], LEAN, ["--object-bits", "11"], 300),
    (["c09::heavy::"], LEAN, ["--object-bits", "10"], 300),
])
PROPERTIES["C10"] = whole_position("c10", [
    (["c10::contract::"], LEAN, ["--object-bits", "11"], 400),
])
PROPERTIES["C11"] = whole_position("c11")

PROPERTIES["C12"] = whole_position("c12")
PROPERTIES["C13"] = whole_position("c13")
PROPERTIES["C14"] = whole_position("c14")
PROPERTIES["C14"]["plain"] = [(["c14::leaf::"], [], [], 200)] + PROPERTIES["C14"]["plain"]
PROPERTIES["C14"]["plain"][1] = (["c14::text::", "c14::owned::"],) + PROPERTIES["C14"]["plain"][1][1:]
PROPERTIES["C15"] = whole_position("c15")
PROPERTIES["C16"] = {
    "plain": [(["c16::light::"], [], [], 300), (["c16::hands::"], LEAN, [], 600)],
}
PROPERTIES["C17"] = {
    "plain": [(["c17::light::"], [], [], 300), (["c17::heavy::", "c17::games::"], LEAN, [], 600)],
}
PROPERTIES["C18"] = light("c18")
PROPERTIES["C20"] = whole_position("c20")
PROPERTIES["C21"] = whole_position("c21")
PROPERTIES["C23"] = {
    "plain": [(["c23::light::"], [], [], 200), (["c23::heavy::"], LEAN, [], 500)],
}

PROPERTIES["C19"] = {
    "plain": [(["c19::light::"], [], [], 200), (["c19::position::", "c19::history::"], [], [], 600)],
    "assumptions": ["sinks and hashers are the harness's own (they accept or fail at any call)",
                    "text of whole positions is left to C14 to C16 (panics; the buffer of the C function is C15)"],
    "note": "Obligations are those that Kani generates in the code under test (panics, arithmetic overflow, pointers, indices) and "
            "that returned values are valid, for all valid arguments; positions are arbitrary and need not be consistent. Kani has no "
            "notion of aliasing rules (Stacked Borrows).",
}

PROPERTIES["C22"] = {
    "plain": [(["c22::"], [], [], 700)],
    "trusted": ["harness/build.rs: the extraction of shogi_core_c/src/no_std.rs (it drops the attributes that claim a symbol or a "
                "role in the final program and cfg(feature = \"alloc\"), makes modules public, and adds accessors; the text of the functions stays)"],
    "assumptions": ["requests follow each other (for concurrent requests see C25)",
                    "the static arena lies where its alignment says"],
    "note": "The allocator: every request after every history (the step of an induction over histories, from the state any request "
            "can leave), by Kani, with the verifier's own checks of pointers. memcpy, memset, memcmp and __bzero: bounded, "
            "ranges of up to 40 bytes at offsets below 4; not counted as proved. The text is extracted from /repo on every build.",
}

PROPERTIES["C25"] = {
    "plain": [(["c25::"], [], [], 300)],
    "level": "other",
    "explanation": "Bounded, not proved: one request of the allocator's extracted text, with an atomic whose value other threads "
                   "change arbitrarily before any access (at most two times, and at most one spurious failure of a weak exchange, so at "
                   "most three retries), is shown to take effect at one moment. Within the bound it is for all requests, states and "
                   "changes, and for any number of threads.",
    "trusted": ["harness/build.rs: the extraction of shogi_core_c/src/no_std.rs (as in C22), with crate::shared for core::sync::atomic",
                "harness/src/shared.rs: the model of an atomic integer (fetch_update as std documents it)"],
    "note": "Kani has no threads: concurrency is stated by rely/guarantee. Every access of the shared atomic is preceded by an arbitrary "
            "change by others; a request has to end as it does alone from the state at one moment, and to change the state at most once. "
            "Bounded: at most two changes by others and one spurious failure during a request. Together with C22 this is disjointness.",
}

TRUSTED = [
    "Kani 0.68.0 (translation of MIR to a goto program, its model of the allocator and of intrinsics)",
    "CBMC 6.11.0 and the SAT solver",
    "rustc (MIR of the dev profile; the harness builds the crate with the features alloc, hash, ord and experimental)",
    "the specification functions of shogi_core/src/contracts.rs, and the transmutes by which they read raw encodings",
]

NOT_APPLICABLE = {
    "C24": "The header is text for C programs, and the names of exported symbols are decided by the linker: no contract on a Rust "
           "function can state either, and Kani supports neither calls by symbol name nor C sources. What the exported functions do is C23.",
}
