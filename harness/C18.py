_runs = [R("char_high_char", reach=[])]
for _c in ("char", "wchar", "char8", "char16", "char32"):
    _m = "both" if _c in ("char", "char16") else "thorough"
    _runs += [R("itself_" + _c), R("boolean_" + _c), R("null_" + _c), R("names_" + _c, tier=_m, weight=10), R("outside_" + _c, tier=_m, weight=10), R("pointer_" + _c, tier=_m, weight=20)]
    for _t in range(6):
        _runs.append(R("code_" + _c, _t, tier="both" if _m == "both" or _t == 4 else "thorough", weight=10))
        _runs.append(R("codepoint_" + _c, _t, tier="both" if _c == "char" else "thorough", weight=10))
        for _e in range(7):
            _runs.append(R("enums_" + _c, _t, _e, tier="thorough" if _c != "char" or _e == 6 and _t not in (3, 4) else "both", weight=30 if _e == 6 else 6, time=600))
    _runs.append(R("codepoint_" + _c, 6, weight=10))
for _n, _t in enumerate(("schar", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong")):
    for _c in range(5): _runs.append(R("int_" + _t, _c, tier="both" if _c in (0, 2) else "thorough", weight=3))
prop("C18", "Characters, code points, booleans and pointers of every value with every allowed type; every value of every integer type as a character; enumerations over seven underlying types, every value in the integer types, the names of the enumerators and the fallback without a name.",
     "none on the values, except char and char8_t values, which are ASCII (a known finding covers the others), and enumeration values without a name, |v| < 100000; the enumerators are those of eight example enumerations", _runs)
