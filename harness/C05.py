_runs = []
for _c in ("c_c", "c_8", "c_16", "c_32", "c_w", "16_16", "16_c", "16_32", "8_8", "32_8", "32_32", "w_16", "w_w"):
    for _a in range(4):
        for _b in range(4):
            for _k in (0, 1):
                _q = _a <= 2 and _b <= 2 and (_a + _b <= 3 or _c in ("16_16", "16_32", "32_32", "c_16", "c_c", "16_c"))
                _m = max(_a, _b) == 3
                if _m and min(_a, _b) < 2: continue
                if _m and _a + _b == 6 and _c in ("c_c", "c_8", "8_8"): continue
                _runs.append(R("cmp_" + _c, _a, _b, _k, tier="both" if _q else "thorough", weight=4 ** (_a + _b)))
for _c in ("char", "char16", "char32"):
    for _a in range(4):
        for _b in range(3):
            _runs.append(R("search_" + _c, _a, _b, tier="both" if _a < 3 else "thorough", weight=4 ** (_a + _b)))
prop("C05", "Two symbolic well-formed strings in every pair of encodings, compared through every representation (reference, borrowing and owning container, view, std::string, C string) and operator, against the lexicographic order of their code points; prefix, suffix and substring search against the same sequences.",
     "strings of up to 2 code points each of every encoded length (thorough: 3 on at least one side); no NUL characters", _runs)
