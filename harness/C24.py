_runs = []
for _c in ("char", "char16"):
    _m = _c == "char"
    for _a in range(18):
        for _b in range(18):
            if _b > _a and _b not in (11, 16): continue
            _q = _m and (_b in (3, 11, 16) or _a == _b)
            if not _m or _b == 3: _runs.append(R("history_" + _c, _a, _b, 1, tier="quick" if _m else "thorough", weight=2))
            if _m: _runs.append(R("history_" + _c, _a, _b, 2, tier="both" if _b in (11, 16) or _a == _b else "thorough", weight=20, time=800))
        _runs.append(R("types_" + _c, _a, tier="both" if _m else "thorough"))
    for _n in (0, 1, 3, 6, 7, 9):
        for _f in (0, 1, 2): _runs.append(R("lists_" + _c, _n, _f, tier="both" if _f == 0 and (_m or _n == 7) else "thorough", weight=4))
    for _a, _b in ((11, 16), (16, 14), (12, 13)): _runs.append(R("history_" + _c, _a, _b, 3, tier="thorough", weight=300, time=800)) if _m else None
    _runs += [R("made_" + _c), R("handles_" + _c, weight=2)]
prop("C24", "Eighteen kinds of argument (bool, code point, six integer and three floating-point types, borrowed, owned and long strings, pointers, objects stored in place, by reference and owned): every sequence of copy and move construction, copy and move assignment and swap over three arguments, argument lists of both kinds (grown past their inline room, moved, by reference), typed retrieval in every wrong type, handles alone, and objects whose copy fails.",
     "two operations over three arguments in the quick runs (one for pairs with an int), up to three in the thorough ones; lists of up to 9 arguments; values are arbitrary, texts have 2 or 20 units",
     _runs, assumptions=["a copy of an argument that owns its value may refer to the original's value (documented for strings and objects), so it is examined only while the original exists"])
