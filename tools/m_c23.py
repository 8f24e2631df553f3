T="visualize_transition_equations.py"; D="visualize_factor_distributions.py"; U="utils_plotting.py"
MUTS=[
("grid max",T,"np.linspace(input_min, input_max, n_points)","np.linspace(input_min, input_max, n_points + 1)[:-1]"),
("range other period",T,"input_max = state_ranges[input_factor].loc[period][\"maximum\"]\n    to_concat = []\n    for quantile","input_max = state_ranges[input_factor].loc[period + 1][\"maximum\"]\n    to_concat = []\n    for quantile"),
("range other factor",T,"input_min = state_ranges[input_factor].loc[period][\"minimum\"]","input_min = state_ranges[output_factor].loc[period][\"minimum\"]"),
("period data",T,"period_data = states_data.query(f\"period == {period}\")[all_factors]\n","period_data = states_data.query(f\"period <= {period}\")[all_factors]\n"),
("quantile fixed",T,".quantile(quantile)",".quantile(quantiles_of_other_factors[0])"),
("not dropped",T,"period_data.drop(columns=input_factor).quantile","period_data.quantile"),
("column order",T,"jnp.array(input_data[all_factors].to_numpy())","jnp.array(input_data.to_numpy())"),
("avg: sampled incl",T,"if factor != input_factor]","if factor != output_factor]"),
("avg: sum",T,".mean().reset_index()",".sum().reset_index()"),
("avg: period data",T,"period_data = states_data.query(f\"period == {period}\")[all_factors].reset_index()","period_data = states_data[all_factors].reset_index()"),
("avg draws",T,".sample(n=n_draws)",".sample(n=n_points)"),
("quantile label",T,"quantile_data[\"quantile\"] = quantile\n","quantile_data[\"quantile\"] = quantiles_of_other_factors[0]\n"),
("key swap",T,"plots_dict[(input_factor, output_factor)] = deepcopy","plots_dict[(output_factor, input_factor)] = deepcopy"),
("params period0",T,"pardict[\"transition\"][output_factor][period]","pardict[\"transition\"][output_factor][0]"),
("params wrong fac",T,"output_factor: pardict[\"transition\"][output_factor][period]","output_factor: pardict[\"transition\"][latent_factors[0]][period]"),
("function wrong",T,"[\"individual_functions\"][\n            output_factor\n        ]","[\"individual_functions\"][\n            latent_factors[-1]\n        ]"),
("no reindex",T,"    params = _set_index_params(model, params)\n",""),
("last period",T,"if period >= model[\"labels\"][\"periods\"][-1]","if period > model[\"labels\"][\"periods\"][-1]"),
("avg vs quant",T,"if quantiles_of_other_factors is not None:","if quantiles_of_other_factors:"),
("color single",T,"and len(quantiles_of_other_factors) > 1","and len(quantiles_of_other_factors) > 2"),
("unanchored",T,"        \"anchored_states\"\n","        \"unanchored_states\"\n"),
("ranges given ignored",T,"    if state_ranges is None:\n","    if True:\n"),
("obs period",T,"data=_observed_arr[period], columns","data=_observed_arr[0], columns"),
("obs merge",T,"how=\"left\"","how=\"inner\""),
("obs merge on",T,"left_on=[\"id\", \"period\"],\n            right_on=[\"id\", \"period\"]","left_on=[\"id\"],\n            right_on=[\"id\"]"),
("mapping mutate",T,"        factor_mapper = factor_mapper.copy()\n",""),
("mapping only cols",T,"all_factors = input_factors + output_factors","all_factors = input_factors"),
("orders rows",T,"if f[1] not in rows:\n                rows.append(f[1])","if f[0] not in rows:\n                rows.append(f[0])"),
("combine no copy",T,"    plots_dict = deepcopy(plots_dict)\n",""),
("combine swap",T,"subfig = plots_dict[(input_factor, output_factor)]","subfig = plots_dict[(output_factor, input_factor)]"),
("combine row/col",T,"fig.add_trace(d, col=col + 1, row=row + 1)\n        else","fig.add_trace(d, col=row + 1, row=col + 1)\n        else"),
("combine title",T,"title_text=f\"{factor_mapping[input_factor]}\"","title_text=f\"{factor_mapping[output_factor]}\""),
("combine legend",T,"if not (row == 0 and col == 0):","if not (row == 0 or col == 0):"),
("layout default wins",U,"        default_kwargs.update(layout_kwargs)\n    return default_kwargs","        default_kwargs = {**layout_kwargs, **default_kwargs}\n    return default_kwargs"),
("layout legend mutate",U,"        default_kwargs[\"legend\"].update(legend_kwargs)","        legend_kwargs.update(default_kwargs[\"legend\"])\n        legend_kwargs.setdefault(\"x\", 0)\n        legend_kwargs[\"y\"] = 1\n        default_kwargs[\"legend\"] = legend_kwargs"),
("subplot opts",U,"    if make_subplot_kwargs is not None:\n        default_kwargs.update(make_subplot_kwargs)\n","    if make_subplot_kwargs is not None and nrows > 1:\n        default_kwargs.update(make_subplot_kwargs)\n"),
("subplot dims",U,"    nrows = len(row_order)\n    ncols = len(column_order)","    ncols = len(row_order)\n    nrows = len(column_order)"),
("dist factor cond",D,"if fac in states:\n","if fac in states or True:\n"),
("dist period",D,"states.query(f\"period == {period}\")[fac]","states.query(f\"period >= {period}\")[fac]"),
("dist scenario",D,"df[\"scenario\"] = name","df[\"scenario\"] = period"),
("dist observed period",D,"observed_states.query(f\"period == {period}\").reset_index()","observed_states.reset_index()"),
("dist mutate",D,"df = df.query(f\"period == {period}\")[factors]\n            df[\"scenario\"] = name","df[\"scenario\"] = name\n            df = df.query(f\"period == {period}\")[factors + [\"scenario\"]]"),
("dist obs fac",D,"to_concat.append(data[fac])","to_concat.append(data[factors[0]])"),
("dist factors",D,"    if factors is None:\n        if observed_factors:","    if factors is None:\n        if not observed_factors:"),
("uni scen",D,"hist_data = [df[fac][df[\"scenario\"] == s] for s in scenarios]","hist_data = [df[fac][df[\"scenario\"] != s] for s in scenarios]"),
("uni fac",D,"hist_data = [df[fac][df","hist_data = [df[factors[0]][df"),
("contour scen",D,"df[df[\"scenario\"] == scenario], pair, n_points","df, pair, n_points"),
("contour axes",D,"        fig.update_xaxes(title={\"text\": pair[0]})\n        fig.update_yaxes(title={\"text\": pair[1]})","        fig.update_xaxes(title={\"text\": pair[1]})\n        fig.update_yaxes(title={\"text\": pair[0]})"),
("contour x",D,"x=x[:, 0],\n","x=x[0, :],\n"),
("dist comb",D,"plot = contour_plots[(fac1, fac2)]","plot = contour_plots[(fac2, fac1)]"),
("dist comb copy",D,"    kde_plots = deepcopy(kde_plots)\n",""),
("3d scene",D,"                \"xaxis\": {\"title\": pair[0]},\n                \"yaxis\": {\"title\": pair[1]},","                \"xaxis\": {\"title\": pair[1]},\n                \"yaxis\": {\"title\": pair[0]},"),
("3d opts",D,"    default_kwargs[\"scene\"] = scene\n    if layout_kwargs:\n        default_kwargs.update(layout_kwargs)\n","    if layout_kwargs:\n        default_kwargs.update(layout_kwargs)\n    default_kwargs[\"scene\"] = scene\n"),
("R quant loop",T,"        quantile_data = pd.DataFrame()\n        quantile_data[f\"input_{input_factor}\"] = input_data[input_factor]\n        quantile_data[f\"output_{output_factor}\"] = np.array(output_arr)","        quantile_data = pd.DataFrame()\n        quantile_data[f\"output_{output_factor}\"] = output_arr\n        quantile_data[f\"input_{input_factor}\"] = input_data[input_factor]"),
("R period data",T,"    period_data = states_data.query(f\"period == {period}\")[all_factors]\n    input_min = state_ranges[input_factor].loc[period][\"minimum\"]\n    input_max = state_ranges[input_factor].loc[period][\"maximum\"]","    ranges = state_ranges[input_factor].loc[period]\n    input_min, input_max = ranges[\"minimum\"], ranges[\"maximum\"]\n    period_data = states_data.query(f\"period == {period}\")[all_factors]"),
("R grid hoisted",T,"    to_concat = []\n    for quantile in quantiles_of_other_factors:\n        input_data = pd.DataFrame()\n        input_data[input_factor] = np.linspace(input_min, input_max, n_points)","    grid = np.linspace(input_min, input_max, n_points)\n    others = period_data.drop(columns=[input_factor])\n    to_concat = []\n    for quantile in quantiles_of_other_factors:\n        input_data = pd.DataFrame()\n        input_data[input_factor] = grid"),
("R nested loops",T,"    for output_factor, input_factor in itertools.product(latent_factors, all_factors):\n        transition_function","    for input_factor, output_factor in itertools.product(all_factors, latent_factors):\n        transition_function"),
("R info",T,"        transition_function = model[\"transition_info\"][\"individual_functions\"][\n            output_factor\n        ]","        functions = model[\"transition_info\"][\"individual_functions\"]\n        transition_function = functions[output_factor]"),
("R mapping",T,"        factor_mapper = factor_mapper.copy()\n        for fac in all_factors:\n            if fac not in factor_mapper:\n                factor_mapper[fac] = fac","        factor_mapper = {**{fac: fac for fac in all_factors}, **factor_mapper}"),
("R options",U,"    if layout_kwargs:\n        default_kwargs.update(layout_kwargs)\n    return default_kwargs","    return {**default_kwargs, **(layout_kwargs or {})}"),
("R dist listcomp",D,"        to_concat = []\n        for fac in factors:\n            if fac in states:\n                to_concat.append(states.query(f\"period == {period}\")[fac])","        period_states = states.query(f\"period == {period}\")\n        to_concat = [period_states[fac] for fac in factors if fac in states]"),
("R obs",D,"    to_concat = []\n    for fac in factors:\n        if fac in data:\n            to_concat.append(data[fac])\n    if len(to_concat) >= 1:\n        observed_states = pd.concat(to_concat, axis=1)\n    else:\n        observed_states = None\n    return observed_states","    to_concat = [data[fac] for fac in factors if fac in data]\n    if not to_concat:\n        return None\n    return pd.concat(to_concat, axis=1)"),
("R scenario assign",D,"            df = df.query(f\"period == {period}\")[factors]\n            df[\"scenario\"] = name\n            to_concat.append(df)","            period_df = df.query(f\"period == {period}\")[factors]\n            to_concat.append(period_df.assign(scenario=name))"),
("R uni",D,"        hist_data = [df[fac][df[\"scenario\"] == s] for s in scenarios]","        hist_data = []\n        for scen in scenarios:\n            hist_data.append(df[fac][df[\"scenario\"] == scen])"),
("R combine",T,"        try:\n            subfig = plots_dict[(input_factor, output_factor)]\n        except KeyError:\n            subfig = go.Figure()","        subfig = plots_dict.get((input_factor, output_factor), go.Figure())"),
]
