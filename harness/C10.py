_runs = []
for _c in ("char", "char16", "wchar"):
    for _nf in (1, 2, 3, 4):
        for _nv, _o in ((3, 0), (3, 1), (3, 2), (2, 0), (2, 1), (1, 0), (0, 0)):
            _q = _nf <= 2 or (_nf == 3 and _c == "char" and (_nv, _o) in ((3, 1), (2, 0)))
            if _nf == 4 and (_c != "char" or (_nv, _o) not in ((3, 1), (2, 0))): continue
            _runs.append(R("mixed_" + _c, _nf, _nv, _o, tier="both" if _q else "thorough", weight=20 ** (_nf - 1), reach=["rejected", "formatted"]))
    for _a, _b, _k in ((1, 1, 1), (1, 2, 1), (1, 2, 2), (2, 2, 2), (2, 1, 2), (2, 3, 2), (2, 3, 3)):
        _runs.append(R("names_" + _c, _a, _b, _k, 0, weight=4, reach=["absent", "found"], tier="both" if _a + _b + _k < 7 else "thorough"))
    for _a, _b, _k in ((0, 1, 0), (1, 1, 1), (1, 2, 1)):
        _runs.append(R("names_" + _c, _a, _b, _k, 1, weight=4, reach=["absent", "found"]))
for _nf in (0, 1, 2, 3, 4):
    _runs.append(R("dynamic", _nf, tier="both" if _nf < 3 else "thorough", weight=9 ** _nf, reach=["formatted"]))
_runs.append(R("many", 0, reach=["absent", "found"], weight=20))
_runs.append(R("many", 1, reach=["absent", "found"], weight=20))
prop("C10", "Every sequence of up to four fields of 20 kinds (automatic, explicit, named, absent, with specifications, with dynamic widths by index, name or counter, scripted) over argument lists of 0 to 3 indexed and two named arguments in several orders, with symbolic values, compared with a model of the numbering rules; arbitrary identifier names including non-ASCII ones; symbolic multi-digit indices over 13 arguments; dynamic argument lists built by arbitrary short histories.",
     "1 to 4 fields, up to 13 indexed and 2 named arguments, names of up to 4 units, indices up to 9999", _runs)
