F="check_model.py"
MUTS=[
("len off",F,'if len(stagemap) != n_periods - 1','if len(stagemap) != n_periods'),
("stages prefix",F,'if stages != list(range(len(stages)))','if stages[0] != 0'),
("diff (0,1,2)",F,'np.diff(stagemap), (0, 1)','np.diff(stagemap), (0, 1, 2)'),
("diff any",F,'(0, 1)).all()','(0, 1)).any()'),
("flags",F,'isinstance(anchoring["free_constant"], bool)','isinstance(anchoring["free_controls"], bool)'),
("outvar float",F,'isinstance(var, (str, int, tuple))','isinstance(var, (str, int, tuple, float))'),
("factor not in outcomes",F,'if factor not in factors','if not isinstance(factor, str)'),
("meas type",F,'isinstance(meas, (int, str, tuple))','isinstance(meas, (int, str))'),
("meas only first",F,'for period, meas_list in enumerate(candidate):\n                for meas in meas_list','for period, meas_list in enumerate(candidate[:1]):\n                for meas in meas_list'),
("norm type always loadings zero",F,'if norm_type == "loadings":','if norm_type == "intercepts":'),
("norm report overwritten",F,'report += _check_normalized_variables_are_present(','report = _check_normalized_variables_are_present('),
("present in any period",F,'present = measurements[period] if period < len(measurements) else []','present = measurements[0]'),
("present late unchecked",F,'present = measurements[period] if period < len(measurements) else []','present = measurements[period] if period < len(measurements) else list(norm_dict)'),
("zero neg",F,'if val == 0','if val <= 0'),
("islist any",F,'all(isinstance(i, type_) for i in candidate)','any(isinstance(i, type_) for i in candidate)'),
("islist no list",F,'isinstance(candidate, list) and all','all'),
("drop guard",F,'''    if not _is_list_of(measurements, list):
        # invalid measurements are reported by _check_measurements
        return report
''',''),
("check_model drop",F,'    report += _check_normalizations(model_dict, labels["latent_factors"])\n',''),
("check_model type",F,'raise ValueError(','raise TypeError('),
("period missing in message",F,'f"of {factor} in period {period}."','f"of {factor} in period."'),
("R: break reorder",F,'''    report = []
    if not isinstance(anchoring["anchoring"], bool):
        report.append("anchoring['anchoring'] must be a bool.")
''','''    report = []
    for flag in ["anchoring"]:
        if not isinstance(anchoring[flag], bool):
            report.append(f"anchoring['{flag}'] must be a bool.")
'''),
("R: comp",F,'''    report = []
    for period, norm_dict in enumerate(list_of_normdicts):
        for var, val in norm_dict.items():
            if val == 0:
                report.append(
                    f"loadings cannot be normalized to 0. Check measurement {var} "
                    f"of {factor} in period {period}."
                )
    return report''','''    return [
        f"loadings cannot be normalized to 0. Check measurement {var} of {factor} in period {period}."
        for period, norm_dict in enumerate(list_of_normdicts)
        for var, val in norm_dict.items()
        if val == 0
    ]'''),
("R: join list",F,'''    report = "\\n".join(report)
    if report != "":
        raise ValueError(f"Invalid model specification:\\n{report}")''','''    if report:
        text = "\\n".join(report)
        raise ValueError(f"Invalid model specification:\\n{text}")'''),
("R: set",F,'''            for meas in meas_list:
                    if not isinstance(meas, (int, str, tuple)):''','''            invalid = [m for m in meas_list if not isinstance(m, (int, str, tuple))]
                for meas in invalid:
                    if True:'''),
("R: helper",F,'''    for factor in factors:
        candidate = model_dict["factors"][factor]["measurements"]
        if''','''    for factor in factors:
        spec = model_dict["factors"][factor]
        candidate = spec["measurements"]
        if'''),
]
