_runs = []
for _c in ("char", "wchar", "char8", "char16", "char32"):
    _m = _c in ("char", "char16")
    for _n in (0, 1, 2):
        for _k in range(4):
            _runs.append(R("strings_" + _c, _n, 5, _k, tier="both" if _c == "char" and (_k == 0 or _n < 2) or _m and _k == 0 and _n < 2 else "thorough", weight=5 * 8 ** _n))
    for _t in (0, 1):
        _runs.append(R("chars_" + _c, _t, 5, tier="both" if _t == 0 else "thorough", weight=10))
        _runs.append(R("codepoints_" + _c, _t, 5, tier="both" if _c in ("char", "wchar") and _t == 0 else "thorough", weight=30))
    for _t in range(13):
        _runs.append(R("numbers_" + _c, _t, 8, tier="both" if _c == "char" or _c == "char16" and _t in (0, 6) else "thorough", weight=20))
    for _n in (0, 1, 2):
        _runs.append(R("escaped_" + _c, _n, 8, tier="both" if _c == "char" or _n == 1 and _c == "char16" else "thorough", weight=20 * 3 ** _n))
_runs += [R("far_width")]
prop("C15", "Every alignment with a symbolic fill character of every encoded length, literal and nested widths, around strings and characters of symbolic code points, symbolic numbers, booleans, pointers, floating-point values, enumerations and escaped text, compared with the unpadded text.",
     "strings of up to 2 characters, widths up to 8 (22 for long texts, up to 2500 in far_width); fills are any code point but U+0000 and braces", _runs)
