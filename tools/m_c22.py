P="correlation_heatmap.py"
MUTS=[
("no purpose",P,"f\"{fac} == True and purpose == 'measurement'\"","f\"{fac} == True\""),
("purpose anch",P,"f\"{fac} == True and purpose == 'measurement'\"","f\"{fac} == True and purpose != 'measurement'\""),
("or",P,"f\"{fac} == True and purpose == 'measurement'\"","f\"{fac} == True or purpose == 'measurement'\""),
("single: period+1",P,"df = data.query(f\"{update_info.index.names[0]}=={period}\")[measurements]","df = data.query(f\"{update_info.index.names[0]}=={period + 1}\")[measurements]"),
("single: update period 0",P,"period_info = update_info.loc[period].reset_index()\n    measurements","period_info = update_info.loc[0].reset_index()\n    measurements"),
("no observed",P,"    for fac in observed_factors:\n        measurements.append(fac)\n",""),
("suffix",P,".add_suffix(f\", {period}\")",".add_suffix(f\", {periods[0]}\")"),
("no reset",P,"            .reset_index(drop=True)\n        )\n    df = pd.concat(to_concat, axis=1)","        )\n    df = pd.concat(to_concat, axis=1)"),
("multi wrong period",P,"_get_measurement_data_for_single_period(\n                data, update_info, period, latent","_get_measurement_data_for_single_period(\n                data, update_info, periods[0], latent"),
("ddof0",P,"df.std()","df.std(ddof=0)"),
("std only",P,"(df - df.mean()) / df.std()","(df - df.mean())"),
("mean axis 0",P,"sr = df.mean(axis=1)","sr = df.mean(axis=0)"),
("skip leave out",P,"m for m in period_factor_measurements if m not in leave_out_meas","m for m in period_factor_measurements"),
("leave out 2",P,"loadings_count > 1","loadings_count > 2"),
("leave out ge",P,"loadings_count > 1","loadings_count >= 1"),
("plus intercept",P,"(df[m] - intercepts.loc[m])","(df[m] + intercepts.loc[m])"),
("mult loading",P,"/ loadings.loc[(m, factor)]","* loadings.loc[(m, factor)]"),
("params period",P,"params = params.query(f\"period=={period}\").droplevel(\"period\")","params = params.query(\"period==0\").droplevel(\"period\")"),
("first latent only",P,"/ loadings.loc[(m, factor)]","/ loadings.loc[(m, latent_factors[0])]"),
("mask upper k",P,"np.triu_indices_from(mask, k=1)","np.triu_indices_from(mask, k=0)"),
("mask lower k",P,"np.tril_indices_from(mask, k=-1)","np.tril_indices_from(mask, k=0)"),
("mask diag off",P,"if show_diagonal:\n        np.fill_diagonal(mask, True)","if show_diagonal and not show_upper_triangle:\n        np.fill_diagonal(mask, True)"),
("trim rows any axis",P,"keeprows = mask.any(axis=1)","keeprows = mask.any(axis=0)"),
("trim nonnull",P,"keepcols = mask.any(axis=0) & corr.notnull().any(axis=\"index\").to_numpy()","keepcols = mask.any(axis=0)"),
("round before",P,"corr = corr.where(mask).round(rounding)","corr = corr.where(mask)"),
("factors: empty",P,"    if not factors:","    if factors is None:"),
("factors swap",P,"            if factor in model[\"labels\"][\"latent_factors\"]:\n                latent_factors.append(factor)\n            elif","            if factor in model[\"labels\"][\"latent_factors\"]:\n                latent_factors.insert(0, factor)\n            elif"),
("periods",P,"list(range(model[\"dimensions\"][\"n_periods\"]))","list(range(model[\"dimensions\"][\"n_periods\"] - 1))"),
("dispatch",P,"    if len(periods) == 1:","    if len(periods) <= 2:"),
("heat default wins",P,"default_heatmap_kwargs.update(heatmap_kwargs)\n    return default_heatmap_kwargs","default_heatmap_kwargs = {**heatmap_kwargs, **default_heatmap_kwargs}\n    return default_heatmap_kwargs"),
("heat user mutated",P,"default_heatmap_kwargs.update(heatmap_kwargs)\n    return default_heatmap_kwargs","heatmap_kwargs.update({k: v for k, v in default_heatmap_kwargs.items() if k not in heatmap_kwargs})\n        return heatmap_kwargs\n    return default_heatmap_kwargs"),
("zmin",P,"zmin = -zmax","zmin = zmax"),
("layout order",P,"    if layout_kwargs:\n        default_layout_kwargs.update(layout_kwargs)\n    return default_layout_kwargs","    return default_layout_kwargs"),
("ticks xy",P,"args = {\"x\": args[0], \"y\": args[1]}","args = {\"x\": args[1], \"y\": args[0]}"),
("plot raw corr",P,"    corr = _process_corr_data_for_plotting(\n        corr, rounding, show_upper_triangle, show_diagonal, trim_heatmap\n    )","    corr = _process_corr_data_for_plotting(\n        corr, rounding, show_diagonal, show_upper_triangle, trim_heatmap\n    )"),
("corr data not balanced",P,"    data = pre_process_data(data, periods)\n    latent_factors","    latent_factors"),
("R heat merge",P,"    if heatmap_kwargs:\n        default_heatmap_kwargs.update(heatmap_kwargs)\n    return default_heatmap_kwargs","    return {**default_heatmap_kwargs, **(heatmap_kwargs or {})}"),
("R heat loop",P,"        default_heatmap_kwargs.update(heatmap_kwargs)","        for k, v in heatmap_kwargs.items():\n            default_heatmap_kwargs[k] = v"),
("R listcomp measurements",P,"    for fac in observed_factors:\n        measurements.append(fac)\n","    measurements = measurements + list(observed_factors)\n"),
("R extend",P,"        measurements += period_info.query(\n            f\"{fac} == True and purpose == 'measurement'\"\n        )[\"variable\"].to_list()","        found = period_info.query(\n            f\"purpose == 'measurement' and {fac} == True\"\n        )\n        measurements.extend(found[\"variable\"].to_list())"),
("R concat listcomp",P,"    to_concat = []\n    for period in periods:\n        to_concat.append(\n            _get_measurement_data_for_single_period(\n                data, update_info, period, latent_factors, observed_factors\n            )\n            .add_suffix(f\", {period}\")\n            .reset_index(drop=True)\n        )\n    df = pd.concat(to_concat, axis=1)","    df = pd.concat(\n        [\n            _get_measurement_data_for_single_period(\n                data, update_info, period, latent_factors, observed_factors\n            )\n            .reset_index(drop=True)\n            .add_suffix(f\", {period}\")\n            for period in periods\n        ],\n        axis=1,\n    )"),
("R std two steps",P,"        df = (df - df.mean()) / df.std()","        centered = df - df.mean()\n        df = centered / df.std()"),
("R mask",P,"    if show_diagonal:\n        np.fill_diagonal(mask, True)\n","    if show_diagonal:\n        mask[np.diag_indices_from(mask)] = True\n"),
("R name",P,"        sr.name = f\"{factor}\"\n        to_concat.append(sr)","        to_concat.append(sr.rename(factor))"),
("R periods",P,"    if periods is None:\n        periods = list(range(model[\"dimensions\"][\"n_periods\"]))\n    elif isinstance(periods, (int, float)):\n        periods = [periods]\n    return periods","    if periods is None:\n        return list(range(model[\"dimensions\"][\"n_periods\"]))\n    if isinstance(periods, (int, float)):\n        return [periods]\n    return periods"),
("R helper inlined ticks",P,"def _process_axes_tick_args(args):\n    if isinstance(args, (tuple, list)):\n        args = {\"x\": args[0], \"y\": args[1]}\n    return args","def _process_axes_tick_args(args):\n    if not isinstance(args, (tuple, list)):\n        return args\n    return dict(zip((\"x\", \"y\"), args))"),
]
