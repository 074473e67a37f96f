_runs = []
for _a in ("int", "uint", "llong", "ullong", "long", "bool", "ushort", "uchar", "char16", "wchar"):
    for _b in range(9):
        _runs.append(R("ints_" + _a, _b, tier="both" if _a in ("int", "llong", "ullong", "bool") or _b in (2, 3) else "thorough", weight=2))
for _a in ("int", "llong", "ullong", "uint", "bool"):
    for _side in (0, 1):
        _runs.append(R("konst_" + _a, _side, tier="both" if _a != "uint" else "thorough", weight=8))
for _a in ("int", "uint", "llong", "ullong", "bool", "short", "float"):
    _runs.append(R("truth_" + _a, weight=1))
for _k in range(8):
    _runs.append(R("floats", _k, weight=40 if _k == 3 else 12, time=300))
for _la in range(4):
    for _lb in range(4):
        for _k in (0, 1, 2):
            for _c in ("char", "char16", "wchar"):
                _q = _la + _lb <= 3 and _c == "char" or (_la, _lb) in ((1, 2), (2, 2)) and _k == 0
                _runs.append(R("strings_" + _c, _la, _lb, _k, tier="both" if _q else "thorough", weight=2 ** (_la + _lb)))
_runs += [R("mixed", weight=8), R("rejected", weight=8), R("accessed", weight=8), R("variables", weight=4)]
prop("C12", "Every operator over every pair of values of every pair of integer types, an integer against boundary constants on either side, floating operands against floating and integer ones (single precision, documented epsilon), strings, mixed kinds, results of accessors, and the truth of bare values, with the operand values fully symbolic.",
     "strings of up to 3 characters of one unit each; floating constants are concrete; integer constants at the limits of the machine types", _runs)
