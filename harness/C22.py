_runs = []
for _c in ("char", "wchar", "char16"):
    _m = _c == "char"
    _q = "both" if _m else "thorough"
    for _k in range(19):
        for _n in range(4):
            if _k in (6, 7, 8) and _n != 3: continue
            _runs.append(R("sequences_" + _c, _k, _n, tier="both" if _m and _n in (0, 2, 3) and (_n < 3 or _k in (0, 5, 6, 7, 8)) or (_c == "wchar" and _n == 2 and _k in (0, 14)) else "thorough", weight=5))
    for _k in range(3):
        for _a in range(3):
            for _b in range(3):
                _runs.append(R("texts_" + _c, _k, _a, _b, tier="both" if _m and (_a, _b) in ((0, 1), (1, 0), (1, 1)) or _c == "char16" and (_k, _a, _b) == (0, 1, 1) else "thorough", weight=20, time=800))
    for _n in range(3):
        for _k in (0, 1): _runs.append(R("strings_" + _c, _n, _k, tier="both" if _n < 2 or _n == 2 and _m and _k == 0 else "thorough", weight=3 ** _n))
    for _n in range(6):
        for _k in range(3): _runs.append(R("once_" + _c, _n, _k, tier="both" if _m and _n < 4 else "thorough"))
    for _k in range(7):
        for _n in (0, 1, 2): _runs.append(R("tuples_" + _c, _k, _n, tier="both" if _n == 1 and _m else "thorough", weight=3))
    for _k in range(5):
        for _n in (0, 1, 2): _runs.append(R("sums_" + _c, _k, _n, tier="both" if _n == 1 and _m else "thorough", weight=3))
    for _k in range(5):
        for _s in (0, 1, 2):
            for _n in range(4): _runs.append(R("joins_" + _c, _k, _s, _n, tier="both" if _m and (_s, _n) in ((1, 0), (1, 1), (0, 2), (1, 3)) or (_c != "char" and (_s, _n, _k) == (1, 2, 0)) else "thorough", weight=4))
    for _k in range(6): _runs.append(R("invalid_" + _c, _k, tier=_q, weight=3))
prop("C22", "Ranges of twenty element and container kinds (integers, strings of arbitrary code points, nested ranges, pairs, arrays, maps, sets, bools, code points), tuples, pairs, optional, variant and join objects with every documented option and element specification: the output equals the elements formatted one by one by the library itself, between the documented marks.",
     "ranges of up to 3 elements, element texts of up to 1 code point (2 in the thorough runs), separators of up to 1 code point (2 thorough), options are any printable ASCII character; elements of user-defined type are arbitrary 32-bit values", _runs)
