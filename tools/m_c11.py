F = "constraints.py"
MUTS = [
    ("no copy", F, "df = params_df.copy()", "df = params_df"),
    ("overwrite existing", F, 'if "lower_bound" not in df.columns:\n            df', 'if True:\n            df'),
    ("zero prior", F, 'df["lower_bound"] = -np.inf', 'df["lower_bound"] = 0.0'),
    ("meas only", F, 'df.loc["shock_sds", "lower_bound"] = bounds_distance', 'pass'),
    ("zero for shock", F, 'df.loc["shock_sds", "lower_bound"] = bounds_distance', 'df.loc["shock_sds", "lower_bound"] = 0.0'),
    ("all chol", F, "if _is_diagonal_entry(tup)]", "if True]"),
    ("off chol", F, "if _is_diagonal_entry(tup)]", "if not _is_diagonal_entry(tup)]"),
    ("upper", F, 'df.loc[ind_tups, "lower_bound"]', 'df.loc[ind_tups, "upper_bound"]'),
    ("name1", F, "name2 = ind_tup[-1]", "name2 = ind_tup[-2]"),
    ("middle", F, "int(len(name2) // 2)", "int(len(name2) // 2) - 1"),
    ("even", F, "if len(name2) % 2 == 0:", "if len(name2) % 2 == 1:"),
    ("no half compare", F, "elif name2[:middle_pos] != name2[middle_pos + 1 :]:", "elif len(name2[:middle_pos]) != len(name2[middle_pos + 1 :]):"),
    ("first char only", F, "elif name2[:middle_pos] != name2[middle_pos + 1 :]:", "elif name2[0] != name2[middle_pos + 1]:"),
    ("prefix cut", F, "elif name2[:middle_pos] != name2[middle_pos + 1 :]:", "elif name2[:middle_pos - 1] != name2[middle_pos + 1 : -1]:"),
    ("underscore", F, 'name2[middle_pos] != "-"', 'name2[middle_pos] != "_"'),
    ("R split", F, '    middle_pos = int(len(name2) // 2)\n', '    row, col = name2.split("-", 1)\n    return row == col\n    middle_pos = 0\n'),
    ("R mask", F, '        df.loc["meas_sds", "lower_bound"] = bounds_distance\n        df.loc["shock_sds", "lower_bound"] = bounds_distance\n', '        df.loc[df.index.get_level_values("category").isin(["meas_sds", "shock_sds"]), "lower_bound"] = bounds_distance\n'),
    ("R loop", F, '        df.loc["meas_sds", "lower_bound"] = bounds_distance\n        df.loc["shock_sds", "lower_bound"] = bounds_distance\n', '        for cat in ["meas_sds", "shock_sds"]:\n            df.loc[cat, "lower_bound"] = bounds_distance\n'),
    ("R half", F, "elif name2[:middle_pos] != name2[middle_pos + 1 :]:", "elif name2 != name2[:middle_pos] + '-' + name2[:middle_pos]:"),
    ("R halfname", F, "    middle_pos = int(len(name2) // 2)\n", "    middle_pos = (len(name2) - 1) // 2\n"),
]
