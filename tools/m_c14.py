F="process_model.py"
MUTS=[
("order factors/periods",F,'for factor in anchoring_info["factors"]:\n            outcome','for factor in reversed(anchoring_info["factors"]):\n            outcome'),
("no purpose anchoring",F,'"purpose"] = "anchoring"','"purpose"] = "measurement"'),
("name",F,'name = f"{outcome}_{factor}"\n            uinfo','name = f"{factor}_{outcome}"\n            uinfo'),
("anch first period",F,'        for factor in anchoring_info["factors"]:\n            outcome = anchoring_info["outcomes"][factor]\n            name = f"{outcome}_{factor}"\n            uinfo','        for factor in anchoring_info["factors"][:1]:\n            outcome = anchoring_info["outcomes"][factor]\n            name = f"{outcome}_{factor}"\n            uinfo'),
("periods -1",F,'for period in labels["periods"]:\n        for factor in labels["latent','for period in labels["periods"][:-1]:\n        for factor in labels["latent'),
("skip dup",F,'                uinfo.loc[(period, meas), factor] = True\n','                if (period, meas) not in uinfo.index:\n                    uinfo.loc[(period, meas), factor] = True\n'),
("meas period 0",F,'for meas in measurements[factor][period]:','for meas in measurements[factor][0]:'),
("anch before",F,'''        for factor in labels["latent_factors"]:
            for meas in measurements[factor][period]:
                uinfo.loc[(period, meas), factor] = True
                uinfo.loc[(period, meas), "purpose"] = "measurement"
        for factor in anchoring_info["factors"]:
            outcome = anchoring_info["outcomes"][factor]
            name = f"{outcome}_{factor}"
            uinfo.loc[(period, name), factor] = True
            uinfo.loc[(period, name), "purpose"] = "anchoring"
''','''        for factor in anchoring_info["factors"]:
            outcome = anchoring_info["outcomes"][factor]
            name = f"{outcome}_{factor}"
            uinfo.loc[(period, name), factor] = True
            uinfo.loc[(period, name), "purpose"] = "anchoring"
        for factor in labels["latent_factors"]:
            for meas in measurements[factor][period]:
                uinfo.loc[(period, meas), factor] = True
                uinfo.loc[(period, meas), "purpose"] = "measurement"
'''),
("anch interleaved",F,'''        for factor in anchoring_info["factors"]:
            outcome = anchoring_info["outcomes"][factor]
            name = f"{outcome}_{factor}"
            uinfo.loc[(period, name), factor] = True
            uinfo.loc[(period, name), "purpose"] = "anchoring"
''','''            if factor in anchoring_info["factors"]:
                outcome = anchoring_info["outcomes"][factor]
                name = f"{outcome}_{factor}"
                uinfo.loc[(period, name), factor] = True
                uinfo.loc[(period, name), "purpose"] = "anchoring"
'''),
("no astype",F,'uinfo[factor] = uinfo[factor].astype(bool)','pass'),
("fill True",F,'uinfo.fillna(False, inplace=True)','uinfo.fillna(True, inplace=True)'),
("cols",F,'columns=labels["latent_factors"] + ["purpose"]','columns=["purpose"] + labels["latent_factors"]'),
("R swapped writes",F,'''                uinfo.loc[(period, meas), factor] = True
                uinfo.loc[(period, meas), "purpose"] = "measurement"
''','''                uinfo.loc[(period, meas), "purpose"] = "measurement"
                uinfo.loc[(period, meas), factor] = True
'''),
("R helper",F,'''            uinfo.loc[(period, name), factor] = True
            uinfo.loc[(period, name), "purpose"] = "anchoring"
''','''            row = (period, name)
            uinfo.loc[row, [factor, "purpose"]] = [True, "anchoring"]
'''),
("R two loops",F,'''                uinfo.loc[(period, meas), "purpose"] = "measurement"
''','''            for meas in measurements[factor][period]:
                uinfo.loc[(period, meas), "purpose"] = "measurement"
'''),
("R fillna",F,'uinfo.fillna(False, inplace=True)','uinfo = uinfo.fillna(False)'),
("R astype list",F,'''    for factor in labels["latent_factors"]:
        uinfo[factor] = uinfo[factor].astype(bool)
''','''    facs = labels["latent_factors"]
    uinfo[facs] = uinfo[facs].astype(bool)
'''),
("R direct",F,'''    measurements = {}
    for factor in labels["latent_factors"]:
        measurements[factor] = fill_list(
            model_dict["factors"][factor]["measurements"], [], dimensions["n_periods"]
        )
''','''    measurements = {
        f: fill_list(model_dict["factors"][f]["measurements"], [], dimensions["n_periods"])
        for f in labels["latent_factors"]
    }
'''),
("R rows first",F,'''        for factor in labels["latent_factors"]:
            for meas in measurements[factor][period]:
                uinfo.loc[(period, meas), factor] = True
                uinfo''','''        for factor in labels["latent_factors"]:
            todo = [m for m in measurements[factor][period]]
            for meas in todo:
                uinfo.loc[(period, meas), factor] = True
                uinfo'''),
]
