_runs = [R("names")]
for _c in ("char", "wchar", "char8", "char16", "char32"):
    for _n in (0, 1, 2, 3):
        for _k in range(5):
            _q = _c == "char" and (_n < 2 or _n == 2 and _k == 0) or _c == "char16" and _n < 3 and _k == 0 or _n == 1 and _k == 1
            _runs.append(R("strings_" + _c, _n, 2 * _n + 1, 2 if _n > 2 else 4, _k, tier="both" if _q else "thorough", weight=5 * 6 ** _n))
    _runs.append(R("lengthy_" + _c, tier="both" if _c in ("char", "char16") else "thorough", weight=30))
prop("C16", "Strings of symbolic code points of every encoded length under every precision (none, 0, ...) and width, literal and nested, against the longest prefix by documented width; 40-character texts of symbolic narrow and wide characters under every precision.",
     "up to 3 characters with arbitrary widths (40 characters of two symbolic ones); precision up to 7 (64), width up to 4", _runs)
