_runs = []
for _c in ("char", "wchar", "char8", "char16", "char32"):
    _m = _c in ("char", "char16", "char32")
    for _n in (0, 1, 2, 3, 4, 5):
        if _n < (5 if _c in ("char", "char8") else 4): _runs.append(R("units_" + _c, _n, tier="both" if _n < 3 or _m and _n < 4 else "thorough", weight=4 * 8 ** _n))
        if _n < 3: _runs.append(R("traits_" + _c, _n, tier="both" if _n == 1 or _m and _n < 3 else "thorough", weight=4 * 6 ** _n))
    for _n in (1, 2): _runs.append(R("inside_" + _c, _n, tier="both" if _n == 1 else "thorough", weight=10 ** _n))
    _runs.append(R("chars_" + _c, weight=10))
    _runs.append(R("codepoints_" + _c, tier="both" if _c in ("char", "char16") else "thorough", weight=20))
prop("C17", "Debug output of arbitrary units in every encoding, of well-formed text between other characters and of single characters, compared unit for unit with an independent reference of the escape table and of well-formed UTF-8 (Unicode table 3-7).",
     "up to 3 arbitrary units (4 of UTF-8 in the thorough runs); single characters: every value", _runs,
     assumptions=["non-printable means the control characters U+0000 to U+001F and U+007F"])
