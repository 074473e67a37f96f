_runs = []
for _n in (2, 0, 1, 3):
    for _a in range(_n + 2):
        for _b in sorted({0, 1, _n + 1}):
            for _o in range(24):
                _q = _n == 2 and (_b == 0 or _o in (20, 21, 22))
                _runs.append(R("history_%d" % _n, _a, _b, _o, 2, tier="both" if _q else "thorough", weight=3, time=800))
                if _n == 2 and _a in (1, 2, 3) and _b == 3 and _o in (3, 7, 9, 13, 15, 19, 20, 22): _runs.append(R("history_%d" % _n, _a, _b, _o, 3, tier="thorough", weight=60, time=800))
for _k in range(5):
    _runs += [R("made_2", _k), R("made_0", _k)]
prop("C25", "small_vector: every sequence of twenty-four operations (every way to add, insert, remove, resize, reserve, shrink, assign, copy, move and swap, also with elements of its own) on two vectors of every size around the inline room, against a plain list of values.",
     "sequences of two operations (three in the thorough runs) from every pair of sizes up to one beyond the inline room of 0 to 3 elements (2 in the quick runs); ranges of up to 3 elements, sizes up to 6; values, and indices beyond the size, are arbitrary",
     _runs, assumptions=["allocators compare equal and never fail (failures are C26)"])
