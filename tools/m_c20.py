F="process_debug_data.py"
G="filtered_states.py"
MUTS=[
("id repeat mixtures",F,'np.arange(data.shape[0]).repeat(data.shape[1])','np.arange(data.shape[1]).repeat(data.shape[0])'),
("id tile",F,'np.arange(n_obs).repeat(n_mixtures)','np.tile(np.arange(n_obs), n_mixtures)'),
("mixture repeat",F,'np.full((n_obs, n_mixtures), np.arange(n_mixtures)).flatten()','np.arange(n_mixtures).repeat(n_obs)'),
("agg over obs",F,'.sum(axis=-2)','.sum(axis=-3)'),
("mean not sum",F,'(filtered_states * weights.reshape(*weights.shape, 1)).sum(axis=-2)','filtered_states.mean(axis=-2)'),
("log weights",F,'weights = np.exp(log_mixture_weights)','weights = log_mixture_weights'),
("first weights",F,'weights = np.exp(log_mixture_weights)','weights = np.exp(log_mixture_weights[0])'),
("last update not measurement",F,"purpose == 'measurement' & period == {period}","period == {period}"),
("first measurement",F,'.index[-1][1]','.index[0][1]'),
("off by one",F,'keep.append(i)','keep.append(i + 1)'),
("period offset",F,'df["period"] = period\n        df["id"] = np.arange(len(df))\n        to_concat.append(df)\n\n    filtered','df["period"] = period + 1\n        df["id"] = np.arange(len(df))\n        to_concat.append(df)\n\n    filtered'),
("min of max",F,'[minima[factor], maxima[factor]]','[maxima[factor], minima[factor]]'),
("by id",F,'groupby("period").min()','groupby("id").min()'),
("columns swapped",F,'["minimum", "maximum"]','["maximum", "minimum"]'),
("first factor",F,'[minima[factor], maxima[factor]]','[minima[factor], maxima[factors[0]]]'),
("sds from residuals",F,'_process_residual_sds(debug_data["residual_sds"]','_process_residual_sds(debug_data["residuals"]'),
("contrib clipped",F,'debug_data["all_contributions"], update_info','debug_data["contributions"], update_info'),
("contrib measure swap",F,'df["measurement"] = meas\n        df["period"] = period\n        df["id"] = np.arange(len(df))','df["measurement"] = period\n        df["period"] = meas\n        df["id"] = np.arange(len(df))'),
("anchored ranges",G,'filtered_states=anchored_states_df','filtered_states=unanchored_states_df'),
("params not selected",G,'    params = params.loc[max_inputs["params_template"].index]\n',''),
("anchor wrong pos",G,'constants_arr[:, pos] +','constants_arr[:, 0] +'),
("anchor minus",G,'constants_arr[:, pos] + states_df[factor] * scaling_arr[:, pos]','(constants_arr[:, pos] + states_df[factor]) * scaling_arr[:, pos]'),
("anchor no copy",G,'states_df.copy(deep=True)','states_df'),
("anchor period 0",G,'constants = np.array(pardict["anchoring_constants"][:, :n_latent])\n','constants = np.array(pardict["anchoring_constants"][:1, :n_latent])[0 * np.arange(model["dimensions"]["n_periods"])]\n'),
("R1 named",G,'        out[factor] = constants_arr[:, pos] + states_df[factor] * scaling_arr[:, pos]\n','        scaled = states_df[factor] * scaling_arr[:, pos]\n        out[factor] = scaled + constants_arr[:, pos]\n'),
("R2 out",G,'constants_arr[:, pos] + states_df[factor] *','constants_arr[:, pos] + out[factor] *'),
("R3 einsum",F,'(filtered_states * weights.reshape(*weights.shape, 1)).sum(axis=-2)','(filtered_states * weights[..., np.newaxis]).sum(axis=2)'),
("R4 listcomp",F,'''    ranges = {}
    minima = filtered_states.groupby("period").min()
    maxima = filtered_states.groupby("period").max()
    for factor in factors:
        df = pd.concat([minima[factor], maxima[factor]], axis=1)
        df.columns = ["minimum", "maximum"]
        ranges[factor] = df
    return ranges
''','''    grouped = filtered_states.groupby("period")
    low, high = grouped.min(), grouped.max()
    return {f: pd.DataFrame({"minimum": low[f], "maximum": high[f]}) for f in factors}
'''),
("R5 order",F,'''        df["mixture"] = np.full((n_obs, n_mixtures), np.arange(n_mixtures)).flatten()
        df["period"] = period
''','''        df["period"] = period
        df["mixture"] = np.tile(np.arange(n_mixtures), n_obs)
'''),
("R6 query split",F,'''        last_measurement = update_info.query(
            f"purpose == 'measurement' & period == {period}"
        ).index[-1][1]

        if measurement == last_measurement:
            keep.append(i)
''','''        is_meas = update_info.query(f"purpose == 'measurement' & period == {period}")
        *_, (_, last_measurement) = is_meas.index
        if last_measurement != measurement:
            continue
        keep.append(i)
'''),
("R7 enumerate",F,'''    for period, i in enumerate(keep):
        df = pd.DataFrame(data=agg_states[i], columns=factors)
        df["period"] = period
        df["id"] = np.arange(len(df))
        to_concat.append(df)

    filtered_states = pd.concat(to_concat)

    return filtered_states
''','''    selected = agg_states[np.array(keep)]
    for period, states in enumerate(selected):
        df = pd.DataFrame(states, columns=factors)
        df = df.assign(period=period, id=np.arange(states.shape[0]))
        to_concat.append(df)
    return pd.concat(to_concat)
'''),
]
