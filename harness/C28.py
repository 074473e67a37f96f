_runs = [R("made_0")]
for _f in ("single_0", "single_1", "array_0", "array_1"):
    for _o in range(15):
        _runs.append(R(_f, _o, 2, tier="quick"))
        _runs.append(R(_f, _o, 3, tier="both" if _f in ("single_1", "array_0") and _o in (1, 2, 11, 12) else "thorough", weight=20))
        if _f == "single_1" and _o in (11, 12): _runs.append(R(_f, _o, 4, tier="thorough", weight=300, time=800))
prop("C28", "optional_unique_ptr to objects and arrays, with default and own deleters: every sequence of fifteen operations (construction from pointers, null and unique_ptr, copy, move, both assignments, swap, reset of every kind, release) on three pointers, against a table of who owns what.",
     "two operations, three from pointers that hold something, in the quick runs; up to four in the thorough ones",
     _runs, assumptions=["the caller does not hand the same object over with ownership twice"])
