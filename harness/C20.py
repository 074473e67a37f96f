_runs = []
for _c in ("char", "wchar", "char16"):
    _m = _c == "char"
    for _k in range(4):
        for _n in range(6):
            if _n == 5 and not _m: continue
            _runs.append(R("raw_" + _c, _n, _k, tier="both" if _n < (5 if _m and _k == 0 else 4 if _m else 3) else "thorough", weight=4 * 5 ** _n, time=800))
    for _w in (0, 1, 3, 9):
        for _p in (0, 1, 2, 9):
            _runs.append(R("parts_" + _c, _w, _p, tier="both" if _m and (_w, _p) in ((0, 0), (1, 1), (3, 2), (9, 9)) or _c == "char16" and (_w, _p) == (1, 9) else "thorough", weight=60))
    for _k in range(17):
        for _p in (0, 1): _runs.append(R("nested_" + _c, _k, _p, tier="both" if _m or _k == 0 else "thorough", weight=3))
    for _n in (0, 1, 2): _runs.append(R("access_" + _c, _n, tier="both" if _m else "thorough", weight=6))
    _runs.append(R("huge_" + _c, tier="both" if _m else "thorough"))
    for _k in range(13): _runs.append(R("types_" + _c, _k, tier="both" if _m or _k in (0, 9) else "thorough", weight=8))
prop("C20", "Specifications of arbitrary ASCII characters against a reference of the documented grammar, compared field by field with what the four parsers (with and without precision, simple with and without locale) hand to a formatter; complete specifications with symbolic fill, digits and nested values; nested values of every kind; every type letter for every kind of argument.",
     "arbitrary specifications of up to 4 characters (5 in the thorough runs), without braces; literal width and precision up to 3 digits in complete specifications; fills are any code point but U+0000 and braces", _runs)
