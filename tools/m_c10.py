F="constraints.py"
MUTS=[
("loadings/controls swap",F,'index_tuples.append(("controls", period, meas, "constant"))','index_tuples.append(("loadings", period, meas, factor))'),
("value of wrong period",F,'intercept_norminfo = normalizations[factor]["intercepts"][period]','intercept_norminfo = normalizations[factor]["intercepts"][0]'),
("stage >2",F,'if len(stage_periods) > 1:','if len(stage_periods) > 2:'),
("constant periods",F,'''            for period in labels["periods"][:-1]:
                constraints.append(''','''            for period in labels["periods"][1:]:
                constraints.append('''),
("mixture range",F,'for emf in range(n_mixtures)','for emf in range(n_mixtures - 1)'),
("anch const value",F,'{"loc": locs, "type": "fixed", "value": 0, ','{"loc": locs, "type": "fixed", "value": 1, '),
("anch controls incl constant",F,'for cont in [c for c in controls if c != "constant"]:','for cont in controls:'),
("ids",F,'c["id"] = i','c["id"] = i // 2'),
("transition periods",F,'''        for period in labels["periods"][:-1]:
            funcname''','''        for period in labels["periods"]:
            funcname'''),
("latent only",F,'constr = func(factor, labels["all_factors"], period)','constr = func(factor, labels["latent_factors"], period)'),
("R: enumerate refactor",F,'''    for i, c in enumerate(constr):
        c["id"] = i
''','''    counter = 0
    for c in constr:
        c["id"] = counter
        counter += 1
'''),
("R: two loops",F,'''            locs_trans = [("transition", p) for p in stage_periods]
            locs_q = [("shock_sds", p) for p in stage_periods]
''','''            locs_trans = []
            locs_q = []
            for p in stage_periods:
                locs_trans.append(("transition", p))
                locs_q.append(("shock_sds", p))
'''),
("R: dict update ids",F,'''        c["id"] = i
''','''        c.update({"id": i})
'''),
("R: extend",F,'''    constr += _get_mixture_weights_constraints(dimensions["n_mixtures"])
    constr += _get_stage_constraints(labels["stagemap"], labels["stages"])
''','''    constr.extend(_get_stage_constraints(labels["stagemap"], labels["stages"]))
    constr = constr + _get_mixture_weights_constraints(dimensions["n_mixtures"])
'''),
("R: zip",F,'''    for f, factor in enumerate(labels["latent_factors"]):
        if labels["transition_names"][f] == "constant":
''','''    for factor, name in zip(labels["latent_factors"], labels["transition_names"]):
        if name == "constant":
'''),
("R: stages comp",F,'''    stages_to_periods = {stage: [] for stage in stages}
    for period, stage in enumerate(stagemap):
        stages_to_periods[stage].append(period)
''','''    stages_to_periods = {
        stage: [p for p, s in enumerate(stagemap) if s == stage] for stage in stages
    }
'''),
]
