_runs = [R("cp_roundtrip", k) for k in (1, 2, 3, 4)] + [R("cp_decode", k) for k in (1, 2, 3, 4)]
for _e in ("char", "char8", "char16", "char32", "wchar"):
    for _to in range(5):
        _runs.append(R("conv_" + _e, 2, _to))
        _runs.append(R("conv_" + _e, 3, _to, tier="thorough"))
prop("C01", "All 1,112,064 scalar values as one symbolic variable per encoded-length class through codepoint and every decoder, and symbolic strings through every pair of encodings, against a reference encoder.",
     "single code points: all scalar values; strings: 2 code points (thorough: 3) of any value, every source/target character type pair", _runs)
