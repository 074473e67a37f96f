_runs = []
for _c in ("char", "char8", "char16", "char32", "wchar"):
    for _n in (1, 2, 3, 4, 5):
        _t = "both" if _n < 4 or (_n == 4 and _c in ("char32", "wchar")) else "thorough"
        _runs.append(R("lit_" + _c, _n, 4 if _n < 4 else 2, tier=_t, weight=6 ** _n, reach=["end", "bad"]))
    _runs.append(R("lit_" + _c, 4, 4, tier="thorough", weight=3000, reach=["end", "bad"]))
prop("C08", "Format strings made of any mixture of symbolic ordinary characters of every encoded length, escaped braces, fields and unmatched braces, formatted through vformat/vformat_to in each character type and compared with the text they specify.",
     "up to 3 tokens (thorough: 5) with up to three string arguments of at most 2 characters", _runs)
