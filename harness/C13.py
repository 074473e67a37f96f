_runs = []
for _c in ("char", "char16", "wchar"):
    for _w in (0, 1, 2):
        for _n in (0, 1, 2, 3):
            _cls = 4 if _n < 3 else 2
            _runs.append(R("strings_" + _c, _n, _w, _cls, tier="both" if _n < 3 and (_c != "wchar" or _n != 2) else "thorough", weight=8 ** _n))
        if _c == "char": _runs.append(R("strings_" + _c, 4, _w, 1, tier="thorough", weight=900))
    for _k in range(8):
        _runs.append(R("unterminated_" + _c, _k, tier="both" if _c != "wchar" or _k < 2 else "thorough", weight=8))
    for _n in (1, 2, 3, 4):
        _runs.append(R("integers_" + _c, _n, tier="both" if _n < 3 or _c == "char" and _n < 4 else "thorough", weight=10 ** _n))
    for _len in (0, 1, 3, 5):
        for _s in range(16):
            _q = _len in (0, 3) and _c == "char" or _s in (5, 10) and _len == 3
            _runs.append(R("ranges_" + _c, _len, _s, tier="both" if _q else "thorough", weight=4))
prop("C13", "String constants of arbitrary characters, each plain or escaped, as a result, as a skipped branch, in a condition and as an index; unterminated constants in every position; integer constants of arbitrary digits against a fully symbolic value; index ranges with every combination of given, negative and omitted bounds of symbolic digits.",
     "string constants of up to 4 characters, integers of up to 4 digits (limits of the machine types: C09, C12), ranges over strings of up to 5 characters", _runs)
