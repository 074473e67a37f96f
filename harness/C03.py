_runs = []
for _c, _q, _t in (("char", 3, 5), ("char8", 2, 4), ("char16", 3, 4), ("char32", 2, 3), ("wchar", 1, 3)):
    for _op in range(10):
        for _n in range(0, _t + 1):
            _runs.append(R("text_" + _c, _n, _op, tier="both" if _n == _q or _n == 1 else "thorough", weight=_n))
for _c, _q, _t in (("char", 3, 5), ("char16", 2, 4), ("char32", 2, 3)):
    for _f in range(9):
        for _n in range(0, _t + 1):
            _runs.append(R("format_" + _c, _n, _f, tier="both" if _n in (1, _q) else "thorough", weight=_n))
    for _n in range(0, _t + 1): _runs.append(R("fstr_" + _c, _n, tier="both" if _n in (1, _q) else "thorough", weight=_n))
prop("C03", "Fully symbolic code units (every sequence, valid or not) in a buffer of exactly that size through every measuring, iterating, indexing, slicing, converting and formatting routine; every memory access is checked.",
     "every sequence of up to 3 char, 3 char16_t, 2 char8_t/char32_t, 1 wchar_t units (thorough: 5, 4, 4, 3, 3)", _runs,
     assumptions=["unchecked operator[] is called only with an index below the length, front/back only on non-empty text"])
