prop("C07", "Width, digit and white-space classification of a symbolic code point (directly, decoded from each encoding, and through padding) against the documented interval table.",
     "none on the code point: every Unicode scalar value (width), every 32-bit value (classification)",
     [R("width"), R("classify"), R("units"), R("text_char"), R("text_char16"), R("text_char32"), R("text_wchar"), R("padded")])
