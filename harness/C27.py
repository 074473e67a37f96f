_runs = []
for _n in (3, 4, 1, 0):
    for _a in range(_n + 1):
        for _o in range(13):
            _runs.append(R("vector_%d" % _n, _a, _o, 2, tier="both", weight=2))
            if _n == 3: _runs.append(R("vector_%d" % _n, _a, _o, 3, tier="thorough", weight=20))
for _m, _cap in (("int_0", 0), ("int_1", 1), ("int_3", 3), ("int_5", 5), ("greater_3", 3), ("string_3", 3)):
    for _n in range(_cap + 1):
        for _o in (0, 1, 2):
            _big = _o == 2 and (_cap == 5 or _m == "string_3") or _cap == 5 and _n + _o > 5
            _runs.append(R("map_" + _m, _n, _o, tier="thorough" if _big or _o == 2 and _n == 3 else "both", weight=3 ** _o * (1 + _n), time=800, reach=["end"] + (["full"] if _o and _n == _cap else [])))
for _n in range(4): _runs.append(R("transparent_0", _n))
prop("C27", "fixed_vector: every sequence of thirteen operations, also with elements of its own and beyond the capacity, against a plain list; fixed_flat_map with integer and string keys, two orders and every fill level: every sequence of insertions and assignments of new and present keys, then every kind of lookup of present and absent keys, against a plain dictionary.",
     "two operations (three in the thorough runs) on a fixed_vector of capacity 0, 1, 3 and 4; capacity 0, 1, 3 and 5 for maps with up to one operation (two in the thorough runs) after any order of insertions; keys are arbitrary integers, or texts of up to one arbitrary character",
     _runs)
