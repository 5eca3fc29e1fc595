"""Named search spaces (descriptors understood by rec.make_bounds / rec.dom_of)."""
SHAPES = {
    "f5":   ["float", [-10., -5., 2., -3., -8.], [10., 15., 12., 8., 20.]],
    "f3":   ["float", [-4., -4.5, -3.], [6., 5., 4.]],
    "f4n":  ["float", [-9., -8., -7.5, -20.], [-1., -2., -3., -4.]],
    "f1":   ["float", -3., 7.],
    "f2":   ["float", [0., -6.], [5., 1.]],
    "f17":  ["float", [-5. + (i % 3) for i in range(17)], [6. + (i % 4) for i in range(17)]],
    "f30":  ["float", [-5. - (i % 3) for i in range(30)], [5. + (i % 4) for i in range(30)]],
    "fnarrow": ["float", [100., -7.5, 0., 3.], [100.5, -7.499, 1e-6, 4.]],
    "fzero": ["float", [1., -2., 0., 5.], [3., -2., 4., 5.]],
    "fbig": ["float", [-1e7, 0., -1e9], [1e8, 1e7, 1e9]],
    "int4": ["int", [-3, 0, 10, -20], [7, 4, 30, -5]],
    "int1": ["int", 0, 9],
    "perm6": ["perm", [0, 1, 2, 3, 4, 5]],
    "bin8": ["bin", 8],
    "bool5": ["bool", 5],
    "tbin6": ["tbin", 6, "vstf_02", False],
    "tbool6": ["tbool", 6, "sstf_02"],
    "str3": ["str", [["a", "b", "c"], ["x", "y"], ["p", "q", "r", "s"]]],
    "mix": [["int", [-3, 2], [7, 9]], ["cat", [["a", 1, 2.5, None], ["u", "v"]]], ["float", [-2., 0.], [2., 9.]],
            ["perm", [1, 2, 3, 4]], ["bin", 2], ["str", ["s1", "s2", "s3"]], ["seq", [[1, 2], [3], [4, 5, 6]]], ["bool", 1]],
    "mix2": [["float", -8., 8.], ["int", -5, 5], ["perm", [3, 1, 2]], ["tbin", 3, "sstf_01"]],
}


def ndims(desc):
    from rec import dom_of
    return len(dom_of(desc)[0])

# search spaces with few or no different solutions: populations collapse to one position
FEW = {
    "one_bool": ["bool", 2], "one_int": ["int", [0, 0], [1, 1]], "one_str": ["str", [["a", "b"], ["x", "y"]]], "one_tbin": ["tbin", 2, "vstf_01"],
    "one_perm": ["perm", ["u", "v", "w"]], "one_cat": [["cat", [["a", None]]], ["seq", [[1, 2], [3]]]], "one_float": ["float", [1., -2.], [1., -2.]],
    "one_fix": ["int", [3, 3], [3, 3]], "one_narrow": ["float", [1., 1.], [1. + 1e-15, 1. + 1e-15]],
}
