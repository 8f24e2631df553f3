F="simulate_data.py"
MUTS=[
("policy after transition",F,'policies_t = [p for p in policies if p["period"] == t]','policies_t = [p for p in policies if p["period"] == t - 1]'),
("policy set not add",F,'latent_states[t, :, position] += _get_shock(','latent_states[t, :, position] = _get_shock('),
("policy all periods",F,'[p for p in policies if p["period"] == t]','[p for p in policies if p["period"] <= t]'),
("shock sd t+1",F,'np.diag(shock_sds[t] ** 2)','np.diag(shock_sds[t - 1] ** 2)'),
("shock sd not squared",F,'np.diag(shock_sds[t] ** 2)','np.diag(shock_sds[t])'),
("trans coeff 0",F,'{k: arr[t] for k','{k: arr[0] for k'),
("cov UU'",F,'covs[0][mixture].T @ covs[0][mixture]','covs[0][mixture] @ covs[0][mixture].T'),
("observed factors t+1",F,'observed_factor_data[t]]','observed_factor_data[t + 1]]'),
("controls 0",F,'control_data[t],','control_data[0],'),
("sds not squared",F,'np.diag(sds**2)','np.diag(sds)'),
("id period",F,'meas["period"] = t','meas["period"] = t + 1'),
("latent cols",F,'lat["period"] = t','lat["period"] = 0'),
("weights uniform",F,'p=weights, size','size'),
("same element draw",F,'dist_args[helper_array[i]]','dist_args[helper_array[0]]'),
("anch constants",F,'pardict["anchoring_constants"][jnp.array([t, t + 1])]','pardict["anchoring_constants"][jnp.array([t, t])]'),
("errors before loop",F,'''        errors = multivariate_normal(
            mean=np.zeros(n_states), cov=np.diag(shock_sds[t] ** 2), size=n_obs
        )
        next_states = next_states + errors
''','''        next_states = next_states + multivariate_normal(
            mean=np.zeros(n_states), cov=np.diag(shock_sds[t] ** 2), size=1
        )
'''),
("overwrite next",F,'latent_states[t + 1] = next_states','latent_states[t + 1 :] = next_states'),
("sd neg",F,'elif sd > 0:','elif sd != 0:'),
("unanch twice",F,'                anchored_latent_data, model["labels"]["latent_factors"]','                latent_data, model["labels"]["latent_factors"]'),
("data purpose",F,'purpose="simulation"','purpose="estimation"'),
("R1 helper",F,'''        states = states.reshape(1, 1, *states.shape)
''','''        states = states[np.newaxis, np.newaxis, :, :]
'''),
("R2 policies if",F,'''        policies_t = [p for p in policies if p["period"] == t]
        for policy in policies_t:
            position''','''        for policy in policies:
            if policy["period"] != t:
                continue
            position'''),
("R3 rename",F,'''        next_states = next_states + errors

        latent_states[t + 1] = next_states
''','''        latent_states[t + 1, :, :] = next_states + errors
'''),
("R4 shifted",F,'''    n_meas = loadings.shape[0]
    n_obs = len(states)
''','''    n_obs, n_meas = states.shape[0], len(sds)
'''),
("R5 matmul",F,'np.dot(states, loadings.T)','states @ loadings.T'),
("R6 comp",F,'''    for mixture in range(dimensions["n_mixtures"]):
        args = {
            "mean": latent_states[0][mixture],
            "cov": covs[0][mixture].T @ covs[0][mixture],
        }
        dist_args.append(args)
''','''    dist_args = [
        {"mean": m, "cov": c.T @ c} for m, c in zip(latent_states[0], covs[0])
    ]
'''),
("R7 assign",F,'''        lat = pd.DataFrame(data=latent_states[t], columns=labels["latent_factors"])
        lat["period"] = t
        latent_data_by_period.append(lat)
''','''        lat = pd.DataFrame(data=latent_states[t], columns=labels["latent_factors"])
        latent_data_by_period.append(lat.assign(period=t))
'''),
("R8 enumerate",F,'''        helper_array = choice(np.arange(len(weights)), p=weights, size=n_obs)
        out = np.zeros((n_obs, n_states))
        for i in range(n_obs):
            out[i] = multivariate_normal(**dist_args[helper_array[i]])
''','''        elements = choice(len(weights), size=n_obs, p=weights)
        out = np.zeros((n_obs, n_states))
        for i, k in enumerate(elements):
            out[i] = multivariate_normal(**dist_args[k])
'''),
]
