F="process_model.py"
MUTS=[
("min periods",F,"max(all_n_periods)","min(all_n_periods)"),
("controls+1",F,'len(model_dict.get("controls", [])) + 1','len(model_dict.get("controls", ["x"])) + 1'),
("nmix 2",F,'.get("n_mixtures", 1)','.get("n_mixtures", 2)'),
("all factors order",F,'labels["latent_factors"] + labels["observed_factors"]','labels["observed_factors"] + labels["latent_factors"]'),
("range",F,'dimensions["n_periods"] - 1)','dimensions["n_periods"])'),
("ctl order",F,'["constant"] + list(model_dict.get("controls", []))','list(model_dict.get("controls", [])) + ["constant"]'),
("robust",F,'if not default_options["robust_bounds"]','if default_options["robust_bounds"]'),
("update order",F,'anchinfo.update(model_dict["anchoring"])','anchinfo.update(model_dict["anchoring"]["outcomes"])'),
("anch factors outcome order",F,'fac for fac in model_dict["factors"] if fac in anchinfo["outcomes"]','fac for fac in anchinfo["outcomes"]'),
("anch alias",F,'anchinfo.update(model_dict["anchoring"])','anchinfo = model_dict["anchoring"]'),
("fill >1",F,'if diff >= 1','if diff > 1'),
("fill alias",F,'res = list(short_list)','res = short_list'),
("fill front",F,'res += [fill_value] * diff','res = [fill_value] * diff + res'),
("norm typ",F,'candidate = norminfo.get(norm_type, [])','candidate = norminfo.get("loadings", [])'),
("norm len",F,'candidate = fill_list(candidate, {}, dimensions["n_periods"])','candidate = fill_list(candidate, {}, dimensions["n_periods"] - 1)'),
("norm alias",F,'normalizations[factor] = {}\n','normalizations[factor] = common\n'),
("options copy",F,'default_options.update(model_dict.get("estimation_options", {}))','default_options = {**default_options, **model_dict.get("estimation_options", {})}'),
("R loop",F,'normalizations[factor] = {}\n        norminfo','fac_norms = {}\n        normalizations[factor] = fac_norms\n        norminfo'),
("R comp",F,'"observed_factors": list(model_dict.get("observed_factors", [])),','"observed_factors": [o for o in model_dict.get("observed_factors", [])],'),
("R fill",F,'    if diff >= 1:\n        res += [fill_value] * diff\n','    res = res + [fill_value] * diff\n'),
]
