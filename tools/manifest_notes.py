CHECKS = {
    "C01": ("simulated game, network and editors; canonical scene comparison at the serving instant", NET),
    "C02": ("transport faults at any byte, error answers and foreign servers; state comparison before and after", NET),
    "C03": ("fault phase then quiet phase; bounded liveness and equality with the snapshot", NET),
    "C04": ("request storms and abandonment against a twin game without requests", NET),
    "C05": ("assets that arrive late, never or disappear relative to requests; reference model of the answer", GAME),
    "C07": ("long load/build/switch histories with faults; entity and asset census against a model", NET),
    "C08": ("histories of structural changes across frames; per-entity reference model", GAME),
    "C09": ("mutation histories interleaved with requests; independent recomputation from the world", GAME),
    "C10": ("permuted plugin orders and backend changes around requests in flight; last-registered model", GAME),
    "C12": ("histories of loads and builds over ordinary and degenerate scenes; previous-or-complete-new oracle", NET),
    "C13": ("histories of loads and builds; reference pipeline run over the last successful load", NET),
    "C14": ("switches, loads and builds in any order and frame grouping; layer model", NET),
    "C18": ("user action sequences with network faults; requests counted at the simulated game", NET),
}
CORE = ("Seeded search over builds, interleavings and faults; a clean run is evidence, not proof. Trusted: the harness's driver of the "
        "documented stages and the same library built alone as the oracle; preemption happens at the guarded switch points inside the stages and between stages.")
CHECKS["C06"] = ("payloads carried over a medium that loses, doubles, reorders, splices and alters pieces; decode-error-or-equal oracle", (
    "Seeded search over payloads and damage; a clean run is evidence, not proof. Trusted: the harness's comparison of values and its reference decoding steps (base64 and zlib container)."))
CHECKS["C11"] = ("histories of bodies, colliders, hierarchies and shapes across frames with physics running; shapes checked against the parameters they were made from", GAME)
CHECKS["C15"] = ("several builds on real threads under a seeded scheduler, with unwinding and cancellation; bit-for-bit comparison with a build in a fresh process", CORE)
CHECKS["C16"] = ("crashes at any point of the build and at any byte of a store on a simulated disk; bit-for-bit comparison with the uninterrupted build", CORE)
CHECKS["C17"] = ("generation requests from several systems interleaved with navmesh asset churn; reference model of handles and queue", GAME)
CHECKS["C19"] = ("input and focus histories with arbitrary frame times, stalls and zero-length frames; kinematic reference model", GAME)
PURE = ("A pure function of its input: no schedule, clock, I/O, fault or interleaving takes part, so a simulator has nothing to decide; "
        "searching its inputs would be fuzzing, not deterministic simulation.")
NOT = {f"P{n:02}": PURE for n in range(1, 11)}
