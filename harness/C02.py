_runs = []
for _c in ("char", "char8", "char16", "char32", "wchar"):
    for _n in (0, 1, 2, 3):
        _runs.append(R("seq_" + _c, _n)); _runs.append(R("lens_" + _c, _n))
    _runs.append(R("seq_" + _c, 4, tier="thorough")); _runs.append(R("lens_" + _c, 4, tier="thorough"))
for _c in ("char", "char16", "char32"):
    for _n in (0, 1, 2, 3): _runs.append(R("search_" + _c, _n, tier="both" if _n < 3 else "thorough"))
    for _n in (1, 2, 3):
        for _j in range(_n): _runs.append(R("mut_" + _c, _n, _j, _j & 1))
prop("C02", "Symbolic well-formed strings in every encoding through length, iteration, indexing, offset, search and element assignment, against the generated code-point sequence.",
     "up to 3 code points (thorough: 4) of any value and any mixture of encoded lengths; indices up to length+1 and npos", _runs)
