_runs = []
for _c in ("char", "char16", "wchar"):
    for _nc in (1, 2, 3):
        for _el in (0, 1):
            for _au in (0, 1):
                for _sp in (0, 1, 2, 3):
                    _size = _nc * 2 + _el
                    _nk = 9 if _size <= 3 and _sp != 3 else 4 if _size <= 3 or _c == "char" else 1
                    if _size > 5 and _sp == 3: continue
                    _q = _size <= 3 if _sp != 3 else _size <= 2
                    if _size == 4 and _c == "char" and _sp == 1: _q = True
                    if _nc == 3 and (_sp != 1 or _c != "char"): continue
                    if _size == 7: _nk = 2
                    _runs.append(R("script_" + _c, _nc, _el, _au, _sp, _nk, tier="both" if _q and (_c != "wchar" or _sp == 1) else "thorough", weight=9 ** _size, reach=[]))
_runs.append(R("two", weight=50))
for _k in range(30): _runs.append(R("malformed", _k, weight=1))
prop("C11", "Scripted fields of one to three conditions with and without a final alternative; every combination of 10 kinds of condition and 8 kinds of branch (including text with braces, quotes and colons, and fields with nested dynamic widths), every placement of white space, automatic and explicit numbering, with symbolic values; compared with a model that also checks the text after the field; plus malformed scripts that must be rejected whichever branch their conditions select.",
     "one to three conditions, values 0 to 2 (truth and comparison of arbitrary values: C12)", _runs)
