_runs = []
for _c in ("char", "wchar", "char16"):
    _m = _c == "char"
    _q = "both" if _m else "thorough"
    for _n in range(5):
        _runs.append(R("str_index_" + _c, _n, tier="both" if _n < (4 if _m else 3) else "thorough", weight=4 ** _n))
        _runs.append(R("str_slice_" + _c, _n, tier="both" if _n < (3 if _m else 3) else "thorough", weight=2 * 4 ** _n, time=800))
    for _k in range(21):
        for _n in (0, 3, 4, 5, 6, 9):
            if _n in (3, 6) and _k not in (8, 9, 10, 11, 12, 13, 19, 20, 0): continue
            if _n == 9 and _k not in (14, 16): continue
            _runs.append(R("attrs_" + _c, _k, _n, tier="both" if _m or _k in (0, 16) and _n == 4 else "thorough", weight=2))
    for _n in range(6):
        for _k in range(7):
            if _k >= 4 and _n != 3: continue
            for _e in ("ranges_", "slices_"):
                if _k == 5 and _e == "x": continue
                _runs.append(R(_e + _c, _k, _n, tier="both" if _m and (_n < 4) else "thorough", weight=4))
    for _k in range(11): _runs.append(R("others_" + _c, _k, tier=_q, weight=3))
    for _k in range(3):
        for _a in range(4):
            for _b in range(4):
                _runs.append(R("keys_" + _c, _k, _a, _b, tier="both" if _m and (_a, _b) in ((0, 0), (1, 1), (2, 1), (2, 2), (1, 2)) or _c == "char16" and (_a, _b) == (2, 2) else "thorough", weight=4))
    for _k in range(13): _runs.append(R("none_" + _c, _k, tier="both" if _m or _k == 12 else "thorough"))
    for _k in range(9): _runs.append(R("chain_" + _c, _k, tier="both" if _m or _k in (1, 3) else "thorough", weight=20))
prop("C21", "Arguments of every kind with built-in access (strings, contiguous ranges, vectors of bool, tuples, pairs, maps, optional, variant, type_index) indexed with any 64-bit integer, any slice and arbitrary keys, every attribute name of the tested lengths, and chains written in replacement fields and conditions, including members of objects that only the chain owns.",
     "texts of up to 3 code points (4 in the thorough runs), containers of up to 3 elements (5 thorough), keys of up to 3 units, attribute names of up to 9 units; indices and slices over all 64-bit values; in chains one-digit indices", _runs)
