_runs = []
for _a in ("schar", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong"):
    for _t in range(7):
        _big = _a in ("long", "ulong", "llong", "ullong") and _t in (0, 1)
        _runs.append(R("plain_" + _a, _t, weight=90 if _big else 5, jobs=3 if _big else 1, time=600 if _big else 300, qt=120000 if _big else 30000,
                       tier="thorough" if _big and (_t == 0 or _a in ("long", "ulong")) or _a in ("long", "ulong") else "both"))
for _a in ("wchar", "char8", "char16", "char32"):
    for _t in range(7):
        _runs.append(R("other_" + _a, _t, weight=6, tier="both" if _t in (0, 6) else "thorough"))
for _t in range(7):
    _runs.append(R("layout_schar", _t, 12, weight=20))
    _runs.append(R("layout_short", _t, 8, weight=40, tier="both" if _t in (1, 5) else "thorough"))
    for _a in ("wchar", "char16"):
        _runs.append(R("layout_" + _a, _t, 12, weight=40, tier="thorough"))
    for _a in ("int", "uchar"):
        _runs.append(R("layout_" + _a, _t, 14, weight=80, tier="thorough"))
_runs += [R("layout_llong", _t, 24, weight=80, tier="thorough", time=800) for _t in (4,)]
_runs += [R("layout_ullong", _t, 24, weight=80, tier="thorough", time=800) for _t in (5,)]
prop("C14", "Every value of every built-in integer type in every notation, read back digit by digit from the formatted text; every combination of sign, #, 0, alignment and width (literal and nested) around it.",
     "values are unrestricted (up to 64 bits); widths up to 12 (24 in the thorough runs); fills are * or a space",
     _runs, assumptions=["division and remainder by a constant are given to the solver as their defining equations x = c*q + r, r < c, q <= max/c"])
