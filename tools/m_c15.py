P="process_data.py"
MUTS=[
("nosort",P,"sort=True","sort=False"),
("lev10",P,"for level in [0, 1]","for level in [1, 0]"),
("prod order",P,"from_product([ids, periods]","from_product([periods, ids]"),
("oldid",P,'df["__old_id__"] = df.index.get_level_values(0)','df["__old_id__"] = df.index.get_level_values(1)'),
("no copy",P,'df = df.copy(deep=True).sort_index()\n    df["__old','df["__old'),
("R sorted",P,'ids = sorted(df.index.get_level_values("id").unique())','ids = df.index.get_level_values("id").unique()'),
("R sortonly",P,'df.copy(deep=True).sort_index()\n    df["__old','df.sort_index()\n    df["__old'),
("wipe first",P,'''    observed_data = _generate_observed_factor_array(df, labels, n_obs)
    df = _handle_controls_with_missings(df, labels["controls"], update_info)
''','''    df = _handle_controls_with_missings(df, labels["controls"], update_info)
    observed_data = _generate_observed_factor_array(df, labels, n_obs)
'''),
("nowipe",P,'''    df = _handle_controls_with_missings(df, labels["controls"], update_info)
''','''    _handle_controls_with_missings(df, labels["controls"], update_info)
'''),
("check purpose",P,'_check_data(df, update_info, labels, purpose=purpose)','_check_data(df, update_info, labels, purpose="estimation")'),
("check and",P,'cont not in period_data.columns or period_data[cont].isnull().all()','cont not in period_data.columns'),
("check any",P,'period_data[cont].isnull().all()','period_data[cont].isnull().any()'),
("check all",P,'period_data[factor].isnull().any()','period_data[factor].isnull().all()'),
("check period0",P,'period_data = df.query(f"period == {period}")\n        for cont','period_data = df.query("period == 0")\n        for cont'),
("check le",P,'.unique()) == 1','.unique()) <= 1'),
("check simul",P,'if purpose == "estimation":\n            for meas','if purpose != "estimation":\n            for meas'),
("check last",P,'for factor in labels["observed_factors"]:\n            if','for factor in labels["observed_factors"][1:]:\n            if'),
("report overw",P,'var_report.loc[(period, factor), "problem"] = "Variable has','var_report.loc[(0, factor), "problem"] = "Variable has'),
("R check split",P,'''            if cont not in period_data.columns or period_data[cont].isnull().all():
                var_report''','''            absent = cont not in period_data.columns
            if absent or not period_data[cont].notnull().any():
                var_report'''),
("R guard",P,'''    var_report = var_report.to_string() if len(var_report) > 0 else ""

    if var_report:
        raise ValueError(var_report)''','''    if len(var_report) > 0:
        raise ValueError(var_report.to_string())'''),
("R nobs",P,'n_obs = int(len(df) / len(labels["periods"]))','n_obs = len(df) // len(labels["periods"])'),
]
