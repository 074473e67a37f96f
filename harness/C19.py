_runs = []
# decade, type, precision, width classes
for _t in range(9):
    for _p in range(7):
        for _d in range(13):
            _big = _d in (7, 8, 9, 10, 11, 12)
            _q = (_d, _p) in ((0, 0), (2, 2), (7, 0), (1, 1), (3, 1), (4, 3), (10, 0), (0, 4)) and (_t in (0, 1, 3, 5, 7) or (_d, _p) in ((0, 0), (7, 0)))
            if _q or _p not in (6,) or _d < 2:
                _runs.append(R("finite_double", _d, _t, _p, 4 if _q and not _big else 1, tier="both" if _q else "thorough", weight=6))
    for _c in ("float", "wdouble", "double16", "double32", "double8"):
        for _d, _p in ((0, 0), (1, 2), (5, 1), (7, 0), (4, 4)):
            _runs.append(R("finite_" + _c, _d, _t, _p, 2, tier="both" if _c == "float" and _t in (0, 2, 8) and _d in (0, 5, 7) or _c == "wdouble" and _d == 7 and _t in (0, 1) else "thorough", weight=6))
        _runs.append(R("special_" + _c, _t, tier="both" if _c == "float" and _t == 2 else "thorough", weight=6))
    _runs.append(R("special_double", _t, weight=6))
prop("C19", "Every float and double of several decades, of either sign, zeros, infinities and every NaN, with every type, precisions from none and 0 to 300, every sign option, 0, alignment and widths around the length of the text, against the documented std::to_chars call.",
     "magnitudes in [1.0001, 8.5) * 10^k for k in {-300, -30, -6, -3, 0, 2, 5, 6, 20, 35, 200, 307}; precision up to 300; long double is covered by C15 and C23 on single values only",
     _runs, assumptions=["std::to_chars is an uninterpreted function: the text has the shape the standard prescribes for the decade of the value, with unknown digits (of hexadecimal digits, only the first three may be letters); in replays it is the real function",
                         "g and G without a precision use 6, as the header documents (builtin_formatter.md names the shortest representation)"])
