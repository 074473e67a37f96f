# shape: characters of the first source | max class << 3 | class of the new character << 6
def _sh(n, top, cls): return n | top << 3 | cls << 6
_runs = []
for _c in ("char", "char8", "char16", "char32", "wchar"):
    for _i in (0, 1, 2, 3, 8):                        # default, borrowing, owning, ...
        for _j in (0, 1, 2, 5, 6):                    # default, borrowing, owning, copy, independent copy
            _runs.append(R("hist_" + _c, 1, _sh(2, 4, 4), _i, _j, 0, tier="both", weight=8, reach=["end"]))
            _q = _c == "char" and _i in (1, 2) and _j in (0, 1, 5)
            _runs.append(R("hist_" + _c, 2, _sh(1, 2, 3), _i, _j, 0, tier="both" if _q else "thorough", weight=60, reach=["end"]))
for _c in ("char", "char16"):
    for _i in (1, 2):
        for _j in (1, 5):
            for _cls in (1, 2, 3, 4):
                _runs.append(R("hist_" + _c, 2, _sh(2, 3, _cls), _i, _j, 1, tier="thorough", weight=200, reach=["end"]))
for _c in ("char32", "wchar", "char16"):   # long enough for heap storage
    for _i in (1, 2):
        for _j in (1, 2, 5):
            _n = 4 if _c != "char16" else 7
            _runs.append(R("hist_" + _c, 1, _sh(_n, 1, 4), _i, _j, 0, tier="both" if _c != "char16" or (_i, _j) == (2, 5) else "thorough", weight=20, reach=["end"]))
            _runs.append(R("hist_" + _c, 2, _sh(_n, 1, 4), _i, _j, 0, tier="thorough", weight=200, reach=["end"]))
prop("C06", "Histories of string-container operations (construction, borrowing, copying, moving, swapping, assigning, appending, writing through references and iterators, taking ownership) on two containers with symbolic texts and operations, against a model that tracks the text, the ownership and what each container borrows from; sources are overwritten at the end.",
     "histories of 1-3 constructions followed by 2 (any operation, any container) further operations, source text of up to 2 code points of every encoded length; a history in which a container refers to another one's storage that is then changed or destroyed is excluded (borrowing is documented)", _runs)
