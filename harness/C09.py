_runs = []
for _c in ("char", "char16", "wchar"):
    for _n in (0, 1, 2, 3, 4):
        for _ty in (0, 1, 2, 4):
            _runs.append(R("any_" + _c, _n, 0, 0, _ty, tier="both" if _n < 4 or (_c == "char" and _ty == 1) else "thorough", weight=8 ** _n, reach=[]))
    for _pre in range(1, 28):
        for _post in range(0, 6):
            for _n in (1, 2, 3):
                for _ty in range(16):
                    if _n == 3 and (_c != "char" or _ty not in (0, 1) or _post != 1): continue
                    if _n == 2 and (_post > 1 or _ty > 13 if _c == "char" else _post != 1 or _ty != 1): continue
                    if _n == 1 and _c != "char" and (_ty > 3 or _post > 1): continue
                    _q = _n == 1 and _c == "char" and _post in (0, 1) and _ty < 4
                    _runs.append(R("any_" + _c, _n, _pre, _post, _ty, tier="both" if _q else "thorough", weight=8 ** _n, reach=[]))
for _c in ("char", "char16"):
    for _what in range(12):
        for _k in range(20):
            _runs.append(R("number_" + _c, _k, _what, tier="both" if _c == "char" else "thorough", weight=1, reach=[]))
prop("C09", "Format strings of arbitrary units (free-standing, and between fixed prefixes and suffixes that reach every state of the parser) over argument lists of many types, plus numbers around the limits of the 32-, 64- and 128-bit types with symbolic leading or trailing digits in every numeric position; every path must return or throw an exception derived from std::exception, without out-of-bounds access, arithmetic overflow or termination.",
     "up to 4 arbitrary units (thorough: more combinations), adjacent arbitrary digits excluded outside the number harness so that widths stay small", _runs)
