_runs = []
for _c in ("char", "wchar", "char8", "char16", "char32"):
    for _k in range(15):
        for _h in range(6):
            if _h == 5 and (_c == "char" or _k == 11) or _h < 5 and _c not in ("char", "char16") and _k != 1: continue
            _q = _c == "char" or (_h == 5 and _k % 3 == 0) or (_c == "char16" and _k in (1, 8, 9)) or (_c in ("char8", "char32", "wchar") and _k == 1)
            _runs.append(R("fields_" + _c, _k, _h, tier="both" if _q else "thorough", weight=8, reach=[] if _h == 5 else ["formatted"] + (["truncated"] if _h == 3 else [])))
    for _n in range(3):
        for _h in range(5):
            for _s in range(3):
                _q = _c == "char" and _n < 2 or _c == "char16" and _n == 1 and _s < 2
                if _n == 2 and _c not in ("char", "char16"): continue
                _runs.append(R("formats_" + _c, _n, _h, _s, tier="both" if _q else "thorough", weight=3 + 20 * (_n == 2)))
        for _h in range(5):
            if _n: _runs.append(R("literal_" + _c, _n, _h, tier="both" if _n == 1 or _c == "char" else "thorough", weight=2))
prop("C23", "Fifteen format strings with arguments of every built-in kind, ranges, tuples, optional and user-defined types, short format strings of arbitrary characters, and literal text of arbitrary code points: format, format_to (to a container and to a pointer), formatted_size, format_to_n for every n, and the lazy range (also moved and assigned while being read) agree with vformat, and every character type gives the same text.",
     "argument texts of up to 2 code points, numbers of up to 4 digits, format strings of up to 2 arbitrary ASCII characters (alone, as a replacement field and as a specification), every n from 0 to the length of the text plus 2", _runs, skip=["winapi.cpp", "print.cpp", "color.cpp"])
