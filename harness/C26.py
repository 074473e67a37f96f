_runs = []
for _n in (2, 1, 0):
    for _a in range(_n + 3):
        for _b in sorted({0, _n, _n + 1}):
            for _o in range(24):
                _q = _n == 2 and (_b == 0 and _a < 4 or _o in (20, 21, 22))
                _runs.append(R("history_%d" % _n, _a, _b, _o, 2, tier="both" if _q else "thorough", weight=4, time=800, reach=["failed"] if _o in (0, 1, 2, 4, 5, 6, 9, 10) and _a + 1 > _n and _a >= _n else []))
                if _n == 2 and _a in (2, 3) and _b == 3 and _o in (1, 7, 9, 15, 18, 20, 22): _runs.append(R("history_%d" % _n, _a, _b, _o, 3, tier="thorough", weight=60, time=800, reach=[]))
for _k in range(4):
    for _h in range(3): _runs.append(R("made_2", _k, _h))
for _o in range(13):
    for _a in range(4): _runs.append(R("fixed_3", _a, _o, reach=[]))
    for _a in range(2): _runs.append(R("fixed_1", _a, _o, reach=[]))
prop("C26", "small_vector and fixed_vector with elements whose every copy, move and assignment may throw and an allocator whose every allocation may throw: each of twenty-four (thirteen) operations fails at every point, after which the containers hold live elements only, as many as are alive, own every block of memory, and carry out a further operation.",
     "one failing operation, at any of its first ten points, and one further operation (two failing ones in the thorough runs), from sizes up to two beyond the inline room of 0 to 2 elements; values are arbitrary",
     _runs)
