_runs = []
for _c in ("char", "char8", "char16", "char32", "wchar"):
    for _n in (0, 1, 2, 3, 4):
        for _open in (0, 1):
            for _k in (0, 1):
                _t = "both" if _n < 3 or (_n == 3 and _k == 0 and _c in ("char", "char16", "char32")) else "thorough"
                _runs.append(R("range_" + _c, _n, _open, _k, tier=_t, weight=_n)); _runs.append(R("count_" + _c, _n, _open, _k, tier=_t, weight=_n))
for _c in ("char", "char16", "char32"):
    for _n in (0, 1, 2, 3, 4): _runs.append(R("remove_" + _c, _n, tier="both" if _n < 4 else "thorough"))
prop("C04", "Symbolic well-formed strings sliced with symbolic 64-bit bounds, position/count pairs and prefix/suffix removals against the generated code-point sequence.",
     "up to 3 code points (thorough: 4) of encoded length up to 3, any 64-bit bound values including negative and omitted", _runs)
