"""What is checked how: one entry per claimed property."""
import glob
import os

NOT_APPLICABLE = []
NOTES = "See DESIGN.md. Every check drives the real crate through its public API and judges observed executions."


def st(bin, variant="mon", q=20, t=600, shards=8, **kw):
    return {"bin": bin, "variant": variant, "budget": (q, t), "shards": shards, **kw}


CHECKS = {}


def records(prop, build):
    """What each process recorded per case, one dictionary per stage: (case, what) -> (digest, description)."""
    out = []
    for d in sorted(glob.glob(os.path.join(build, "run", prop, "[0-9]*")), key=lambda p: int(os.path.basename(p))):
        m = {}
        for f in glob.glob(os.path.join(d, "*.rec")):
            for line in open(f, errors="replace"):
                case, what, digest, desc = line.rstrip("\n").split("\t", 3)
                m[case, what] = (digest, desc)
        out.append((os.path.basename(d), m))
    return out


def agree(prop, build, infos):
    """Every two processes must have recorded the same for the same case."""
    seen, compared = {}, 0
    for name, m in records(prop, build):
        for k, (digest, desc) in m.items():
            if k in seen:
                compared += 1
                if seen[k][0] != digest:
                    return {"case": k[0], "desc": desc, "message": f"{k[1]}: {digest} in stage {name}, {seen[k][0]} in stage {seen[k][2]}", "shard": 0}
            else:
                seen[k] = (digest, desc, name)
    infos[-1]["records compared between processes"] = compared
    return None if compared else {"case": "none", "desc": "", "message": "no verdict", "none": True}




def c(pid, technique, stages, rule, note, level="exploration", **kw):
    CHECKS[pid] = {"technique": technique, "stages": stages, "rule": rule, "level_note": note, "level": level, **kw}


SORT_RULE = (
    "A case is (operation, API form, element type, memory layout, key content), generated from the seed: exhaustively for short lengths, a table of content patterns x edge lengths, "
    "inputs recorded from an adaptive adversary run against the code itself, then random until the time is up. Non-trivial: at least two elements and at least one changed position. "
    "Distinct: by hash of all of those."
)
TRUST = "Trusts the oracle (identity bookkeeping and key comparison in /verif/harness), rustc and ndarray. Holds for the executions explored; not a proof."

c(
    "C01",
    "runtime monitoring: identity/order oracle with canaries over generated and adversarial executions",
    [st("c01", q=14)],
    SORT_RULE,
    "Every observed execution was judged for order, element conservation, payload integrity and termination. " + TRUST,
)

c(
    "C02",
    "runtime monitoring: identity/stability oracle with canaries over generated and adversarial executions",
    [st("c02", q=14)],
    SORT_RULE,
    "Every observed execution was judged for order, stability (by input position), conservation, payload integrity and termination. " + TRUST,
)
c(
    "C03",
    "runtime monitoring: identity/stability oracle plus per-element key-call ledger over generated executions, sequential and on thread pools of several sizes with injected delays",
    [st("c03", q=12)],
    "A case is (sequential or parallel, element type, key type, length around index-width switches, layout, content, pool and delay mode), generated from the seed. Non-trivial: at least two elements and at "
    "least one moved. Distinct: by hash of all but pool and delay.",
    "Every observed execution was judged for stable order, conservation, key calls per element (at most one) and key leaks. " + TRUST,
)
c(
    "C04",
    "runtime monitoring: identity/order oracle over parallel executions with injected delays, pool sizes 1-13, nested and busy pools",
    [st("c04", q=14)],
    SORT_RULE + " Thread switches seen inside the comparator give the schedule signature; distinct ones are counted.",
    "Every observed execution was judged for order, conservation, payload integrity and termination. Schedules are perturbed, not enumerated. " + TRUST,
)
c(
    "C05",
    "runtime monitoring: identity/stability oracle over parallel executions with injected delays, pool sizes 1-13, nested and busy pools",
    [st("c05", q=14)],
    SORT_RULE + " Thread switches seen inside the comparator give the schedule signature; distinct ones are counted.",
    "Every observed execution was judged for the unique stable order, conservation, payload integrity and termination. Schedules are perturbed, not enumerated. " + TRUST,
)
SEL_RULE = (
    "A case is (API form, element type, memory layout, content, index or index set), generated from the seed: exhaustively for short lengths and all indices, a table of content patterns x edge lengths, "
    "inputs recorded from an adaptive adversary run against the selection itself, then random until the time is up. Non-trivial: at least two elements, an index requested, and an element moved. "
    "Distinct: by hash of all of those."
)
c(
    "C06",
    "runtime monitoring: rank/partition/conservation oracle and address check of the returned triple over generated and adversarial executions",
    [st("c06", q=14)],
    SEL_RULE,
    "Every observed execution was judged for rank, partition, conservation and in-place returned views. " + TRUST,
)
c(
    "C07",
    "runtime monitoring: rank/partition/conservation oracle and address check of every collected pair over generated and adversarial executions",
    [st("c07", q=14)],
    SEL_RULE,
    "Every observed execution was judged for ranks, partition between them, conservation, prior collection content, and one in-place pair per index in order. " + TRUST,
)
c(
    "C08",
    "runtime monitoring: rank/partition/conservation oracle and address check of every collected reference over parallel executions with injected delays and pool sizes 1-13",
    [st("c08", q=14)],
    SEL_RULE + " Thread switches seen inside the comparator give the schedule signature; distinct ones are counted.",
    "Every observed execution was judged for ranks, partition between them, conservation, prior vector content, and one in-place reference per index in order. Schedules are perturbed, not enumerated. " + TRUST,
)
LIB = "A case is (operation, API form, element type, memory layout, content, arguments), generated from the seed: an exhaustive or tabulated part, then random until the time is up. "
c(
    "C09",
    "runtime monitoring: fault injection of invalid requests; panic, identity and collection-prefix oracle, in builds with and without debug assertions",
    [st("c09", q=7), st("c09", "plain", q=7)],
    LIB + "The request is made invalid in a way drawn from a table (index out of bounds, duplicates, descending pairs at any position, huge values). Non-trivial: the request is invalid and the view is not empty, or a valid control.",
    "Every observed execution was judged for the panic, element conservation and prior collection content. " + TRUST,
)
c(
    "C10",
    "runtime monitoring: reference-model oracle over results and over the recorded sequence of predicate calls",
    [st("c10", q=12)],
    LIB + "Non-trivial: at least two elements.",
    "Every observed execution was judged against a model of the retained elements and of every predicate call. " + TRUST,
)
c(
    "C11",
    "runtime monitoring: exact-answer oracle with a monitor of the elements inspected (count and membership)",
    [st("c11", q=12)],
    LIB + "Non-trivial: at least two elements.",
    "Every observed search was judged for its answer, the number of elements inspected (at most 3 log2 n + 6) and an unmodified view. " + TRUST,
)
c(
    "C12",
    "runtime monitoring: exact-answer oracle for sortedness, position oracle for reversal",
    [st("c12", q=12)],
    LIB + "Non-trivial: at least two elements.",
    "Every observed execution was judged against the definition. " + TRUST,
)
c(
    "C13",
    "runtime monitoring: canaries around the view, address and identity monitors on everything handed out, with injected panics and inconsistent orders",
    [st("c13", q=14)],
    LIB + "A third of the cases end by an injected panic or run under an inconsistent order. Non-trivial: at least two elements and a parent larger than the view.",
    "Every observed execution was judged for an unchanged rest of the parent and for callback arguments and returned addresses within the view. " + TRUST,
)
c(
    "C14",
    "runtime monitoring: differential oracle between layouts and storages over results, return values and recorded comparison sequences",
    [st("c14", q=14)],
    LIB + "Each case is run on every storage kind and several layouts. Non-trivial: at least two elements.",
    "Every observed execution was compared with the one on a contiguous owned array. " + TRUST,
)
c(
    "C15",
    "runtime monitoring: panic injection at every callback call, drop-ledger and identity oracle",
    [st("c15", q=14)],
    LIB + "For short lengths a panic is injected at every single call the operation makes, for longer ones at sampled calls. Non-trivial: the panic fired after an element had moved or at least two elements are held.",
    "Every observed execution was judged for the payload, element conservation and exactly one drop of each element. " + TRUST,
)
c(
    "C16",
    "runtime monitoring: panic injection on worker threads under injected delays, drop-ledger and identity oracle, callback activity after return, pool health",
    [st("c16", q=14)],
    LIB + "A panic is injected at one call, or at all calls from one on. Non-trivial: the panic fired.",
    "Every observed execution was judged for the payload, element conservation, exactly one drop of each element, no callback after return, and a usable pool. Schedules are perturbed, not enumerated. " + TRUST,
)
c(
    "C17",
    "runtime monitoring: fault injection of inconsistent comparison answers; identity, canary, drop and progress monitors, in builds with and without debug assertions",
    [st("c17", q=7), st("c17", "plain", q=7)],
    LIB + "Answers are wrong in one of 14 ways (random, cyclic, constant, contradictory, rarely wrong, ...), or elements are floats with NaN. Non-trivial: at least two elements and one moved.",
    "Every observed execution was judged for return without panic, a bound on callback calls of 300 n^2, conservation, drops and canaries. " + TRUST,
)
c(
    "C18",
    "runtime monitoring: change ledger per element against the changes each element carries afterwards, with injected panics and inconsistent orders",
    [st("c18", q=14)],
    LIB + "Every callback changes the elements it sees. Non-trivial: at least two elements and a change made.",
    "Every observed execution was judged for every change being carried by its element. " + TRUST,
)
c(
    "C19",
    "runtime monitoring: counting allocator (peak, kept, count) around every operation, element drop and clone ledgers, with injected panics",
    [st("c19", q=10)],
    LIB + "A quarter of the cases ends by an injected panic. Non-trivial: at least two elements.",
    "Every observed execution was judged for its peak and remaining heap bytes against the documented bound, and for element drops. " + TRUST,
)
c(
    "C20",
    "runtime monitoring: comparison counter against an n log n bound, under an adaptive adversary answering the running sort and on its recorded inputs",
    [st("c20", q=12)],
    SORT_RULE + " The adversary answers comparisons while the sort runs, so each such run is a worst case built for that code.",
    "Every observed execution was judged for at most 6 n log2 n + 300 comparisons (the most seen is below 3 n log2 n). " + TRUST,
)
c(
    "C21",
    "runtime monitoring: comparison counter against linear and n log m bounds, under an adaptive adversary answering the running selection and on its recorded inputs",
    [st("c21", q=12)],
    SEL_RULE + " The adversary answers comparisons while the selection runs, so each such run is a worst case built for that code.",
    "Every observed execution was judged for at most 60 n (1 + log2(m + 1)) + 500 comparisons, or one per element for the linear scans. " + TRUST,
)
c(
    "C22",
    "runtime monitoring: comparison counter against a linear bound on presorted, reversed, constant and few-stretch inputs, with an order oracle",
    [st("c22", q=10)],
    LIB + "Content is presorted with any tie structure, strictly reversed, constant, or a few sorted stretches (stable sorts). Non-trivial: at least two elements.",
    "Every observed execution was judged for a linear bound (2.5 n + 300 comparisons for one stretch, 2 n beyond 32768 elements, 2 (log2(k + 1) + 3) n + 300 for k stretches) and a sorted outcome. " + TRUST,
)
c(
    "C23",
    "runtime monitoring: lowest stack address seen inside callbacks against a logarithmic bound, under an adaptive adversary, with and without stack spilling",
    [st("c23", q=10), st("c23", "nostk", q=10)],
    SORT_RULE + " Selections as well.",
    "Every observed execution was judged for at most 12 KiB + 1 KiB log2 n of stack (24 KiB + 2 KiB log2 n for parallel and cached ones, segments added by the spilling feature included). " + TRUST,
)
c(
    "C24",
    "runtime monitoring: repetition oracle over outcomes, return values and recorded comparison sequences, across histories, pools and processes",
    [st("c24", q=9), st("c24", q=9, env={"RAYON_NUM_THREADS": "3", "MALLOC_MMAP_THRESHOLD_": "4096", "MALLOC_TOP_PAD_": "123456"})],
    LIB + "Every case is repeated within a process after different histories and on different pools, and in a second process. Non-trivial: at least two elements and one moved.",
    "Every observed repetition was compared with the first one. Schedules are perturbed, not enumerated. " + TRUST,
    compare=agree,
)
c(
    "C25",
    "undefined-behaviour interpreter (Miri with Tree Borrows, and without borrow tracking for longer inputs), AddressSanitizer with leak detection, MemorySanitizer; fault injection of panics and inconsistent orders",
    [
        st("c25", "plain", q=6, t=200),
        st("c25", "mon", q=4, t=60),
        st("c25", "asan", q=12, t=400),
        st("c25", "msan", q=12, t=400),
        st("c25", "miri", q=3, t=900, miriflags="-Zmiri-tree-borrows -Zmiri-provenance-gc=1000"),
        st("c25", "miri", q=3, t=900, extra="long", miriflags="-Zmiri-disable-stacked-borrows"),
    ],
    LIB + "What an operation returns is then read, written and exchanged. Non-trivial: at least two elements.",
    "Every observed execution was judged by the sanitizers and the interpreter; what they do not model (and code not executed) is not covered. Stacked Borrows is not used as crossbeam-epoch violates it. " + TRUST,
)
c(
    "C26",
    "runtime monitoring: exclusivity monitor per element inside callbacks (elements that are Send but not Sync), ThreadSanitizer, activity after return, under injected delays",
    [st("c26", q=10), st("c26", "tsan", q=12, t=400)],
    SORT_RULE + " Thread switches seen inside the comparator give the schedule signature; distinct ones are counted.",
    "Every observed execution was judged for concurrent callbacks on one element, races reported by ThreadSanitizer and callbacks after return. Schedules are perturbed, not enumerated. " + TRUST,
)
c(
    "C27",
    "runtime monitoring: differential oracle of operations running at the same time on disjoint views against each run alone, with canaries; ThreadSanitizer",
    [st("c27", q=10), st("c27", "tsan", q=12, t=400)],
    "A case is a parent array, a way to split it into disjoint views, an operation per view, threads or pool and delay mode, generated from the seed. Non-trivial: two operations overlapped in time on at least two elements each.",
    "Every observed execution was compared with the operation run alone. Schedules are perturbed, not enumerated. " + TRUST,
)
CFGS = ["cfg-none", "cfg-alloc", "cfg-std", "cfg-par", "cfg-stk-only", "cfg-alloc-stk", "cfg-stk", "cfg-all"]
c(
    "C28",
    "runtime monitoring: differential oracle over recorded outcomes, return values and callback counts of one process per feature configuration",
    [st("c28", v, q=3, t=100, build_is_property=True) for v in CFGS],
    LIB + "The same cases run in all eight combinations of no/alloc/std/parallel with and without stack spilling. Non-trivial: at least two elements, and one moved if the operation sorts or selects.",
    "Every record of every configuration was compared with those of the same case in the other ones. " + TRUST,
    compare=agree,
)
c(
    "C29",
    "runtime monitoring: differential oracle of operations called from callbacks of other ones against each run alone on a fresh thread, with canaries and injected panics",
    [st("c29", q=14)],
    "A case is an operation whose callbacks call other operations on arrays of their own, up to three deep, some of them ending by panic: (operation, API form, element type, memory layout, content, thread pool, how often it calls others), generated from the seed; "
    "a table of operations x lengths, then random until the time is up. Non-trivial: at least one operation was called from a callback and completed. Distinct: by hash of all of those.",
    "Every observed operation, called from a callback or calling others, was compared with the same one run alone. " + TRUST,
)
c(
    "C30",
    "runtime monitoring: differential oracle against the standard library's slices over element types of forty sizes, alignments and ownerships",
    [st("c30", q=14)],
    "A case is (operation, natural or key form, element type, length, stride, content, index or index set, thread pool), generated from the seed: a table of types x operations x lengths, then random until the time is up. "
    "Non-trivial: at least two elements that are not zero-sized. Distinct: by hash of type, operation, form, stride and content.",
    "Every observed result was compared with what the standard library gives for the same elements in a slice, where that is fixed, and judged by rank, order and conservation where it is not. " + TRUST,
)
c(
    "C31",
    "runtime monitoring with fault injection: an allocator that turns down requests, a watched heap, identity ledgers and process outcomes over executions in processes of their own",
    [st("c31", q=18)],
    "A case is (operation, API form, element type, memory layout, content, thread count, which request for memory is turned down: each by number, or all from a size on), generated from the seed: "
    "a table of operations x lengths, inputs that have the stack of pending runs grow, then random until the time is up. Non-trivial: at least one request was turned down. Distinct: by hash of all but the thread count.",
    "Every observed process was judged: it ended normally or by the handler for failed allocations, and if the call returned or panicked, for conservation, order if it returned, what is still allocated and layouts on release. " + TRUST,
)
c(
    "C32",
    "runtime monitoring: basic blocks executed and bytes copied, counted by compiler instrumentation, against bounds in proportion to what is documented",
    [st("c32", "work", q=16)],
    "A case is (operation, API form, element type of 1 to 260 bytes, stride, content, thread pool), generated from the seed: a table of lengths x operations x (patterns, one presorted stretch, inputs recorded from an adversary), "
    "then random until the time is up. Non-trivial: at least two elements. Distinct: by hash of all but the pool.",
    "The work of every observed call was compared with its bound, three to four times the most that is seen on the unchanged tree. Library code that is not generic (of the standard library, of rayon) is not counted except for copying. " + TRUST,
)
c(
    "C33",
    "runtime monitoring: callbacks attributed to threads while each takes its time, over pools of several sizes and the global one",
    [st("c33", q=18)],
    "A case is (operation, API form, element type, length, layout, content without long presorted stretches, index set, thread pool), generated from the seed: a table of operations x lengths, then random until the time is up. "
    "Non-trivial: the pool has several threads. Distinct: by hash of all of those.",
    "Every observed callback was attributed to a thread of the current pool; the busiest one made at most 60 of 100 callbacks (50 with six threads or more; about 40 and 33 are seen) in at least one of four runs. " + TRUST,
)
