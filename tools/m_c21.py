F="utilities.py"
MUTS=[
("R loop rewritten",F,'    reduced = [_remove_from_dict(norm, measurements) for norm in normalizations]\n','    reduced = []\n    for norm in normalizations:\n        reduced.append(_remove_from_dict(norm, measurements))\n'),
("R extract list",F,'to_remove = set(model_dict["factors"]).difference(factors)','to_remove = [f for f in model_dict["factors"] if f not in factors]'),
("R len test",F,'if out["controls"] == []:','if len(out["controls"]) == 0:'),
("R remove list",F,'return [element for element in list_ if element not in to_remove]','result = []\n    for element in list_:\n        if element not in to_remove:\n            result.append(element)\n    return result'),
("no deepcopy",F,'out = deepcopy(model_dict)\n\n    for factor','out = model_dict.copy()\n\n    for factor'),
("stagemap off",F,'_shorten_if_necessary(out["stagemap"], new_n_periods - 1)','_shorten_if_necessary(out["stagemap"], new_n_periods)'),
("shorten strict",F,'    return {key: val for key, val in dict_.items() if key not in to_remove}','    return {key: val for key, val in dict_.items() if key in to_remove}'),
("outcomes kept",F,'if out["anchoring"]["outcomes"] == {}:','if out["anchoring"]["outcomes"] != {}:'),
("n_periods of old",F,'get_dimensions(out)["n_periods"]','get_dimensions(model_dict)["n_periods"]'),
("intercepts forgot",F,'''_shorten_if_necessary(norminfo["intercepts"], new_n_periods)''','''norminfo["intercepts"]'''),
("index of the full model",F,'''        out_params = _reduce_params(params, out)
        out = (out, out_params)

    return out


def remove_measurements''','''        out_params = _reduce_params(params, model_dict)
        out = (out, out_params)

    return out


def remove_measurements'''),
("fill 0",F,'out_params = _extend_params(params, out, 0.05)\n        out = (out, out_params)\n    return out','out_params = _extend_params(params, out, 0.0)\n        out = (out, out_params)\n    return out'),
("lower inf",F,'fillna(-np.inf)','fillna(np.inf)'),
("update shallow",F,'out = params.copy(deep=True)','out = params'),
("switch to wrong",F,'["transition_function"] = "translog"','["transition_function"] = "translog" if "stagemap" in out else "linear"'),
]
