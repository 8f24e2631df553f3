F="process_data.py"
MUTS=[
("all controls",F,'control_data.isnull().any(axis=1)','control_data.isnull().all(axis=1)'),
("all measured",F,'meas_data.notnull().any(axis=1)','meas_data.notnull().all(axis=1)'),
("no measure cond",F,'control_data.isnull().any(axis=1) & meas_data.notnull().any(axis=1)','control_data.isnull().any(axis=1)'),
("overwrite idx",F,'problematic_index = problematic_index.union(period_data[problem].index)','problematic_index = period_data[problem].index'),
("first control",F,'period_data[controls]','period_data[controls[:1]]'),
("no copy",F,'    df = df.copy(deep=True)\n    periods =','    periods ='),
("skip last",F,'.unique().tolist()\n','.unique().tolist()[:-1]\n'),
("warn only",F,'        df.loc[problematic_index] = np.nan\n',''),
("no warn",F,'        warnings.warn(msg)\n',''),
("threshold",F,'if len(problematic_index) > 0:','if len(problematic_index) > 1:'),
("new names",F,'[["__old_id__", "__old_period__"]]','[["__old_period__", "__old_id__"]]'),
("next meas",F,'get_period_measurements(update_info, period)\n            if','get_period_measurements(update_info, period + 1)\n            if'),
("R1",F,'        problem = control_data.isnull().any(axis=1) & meas_data.notnull().any(axis=1)\n        problematic_index = problematic_index.union(period_data[problem].index)\n','        has_data = ~meas_data.isna().all(axis=1)\n        problem = has_data & control_data.isna().any(axis=1)\n        found = period_data[problem].index\n        problematic_index = problematic_index.union(found)\n'),
("R2",F,'if len(problematic_index) > 0:','if not problematic_index.empty:'),
("R3",F,'periods = update_info.index.get_level_values(0).unique().tolist()','periods = list(update_info.index.get_level_values("period").unique())'),
("R4",F,'period_data = df.query(f"period == {period}")\n        control','period_data = df[df.index.get_level_values("period") == period]\n        control'),
]
