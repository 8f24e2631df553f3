SEEDS=[]
def S(id,property,edits,needs,breaks,demo): SEEDS.append(dict(id=id,property=property,edits=edits,needs=needs,breaks=breaks,demo=demo))

S("s01-weights-floor","C01",[("kalman_filters.py","""        _new_log_mixture_weights = _weighted_loglikes_per_dist - _loglikes.reshape(
            -1, 1
        )
""","""        # avoid log weights that are numerically minus infinity
        _new_log_mixture_weights = jnp.maximum(
            _weighted_loglikes_per_dist - _loglikes.reshape(-1, 1), -50.0
        )
""")],"at least two mixture elements and an observation that is extremely unlikely under one of them",
"posterior mixture weights are floored, they no longer follow Bayes' rule",r'''
import sys
from common import *
from skillmodels.kalman_filters import kalman_update
from scipy.stats import norm
from scipy.special import logsumexp
states=np.array([[[0.0,0.0],[30.0,1.0]]]); chol=np.tile(np.eye(2),(1,2,1,1))
load=np.array([1.0,0.5]); lw=np.log(np.array([[0.5,0.5]]))
out=kalman_update(jnp.array(states),jnp.array(chol),jnp.array(load),jnp.array([0.0]),0.5,jnp.array([0.2]),jnp.ones((1,1)),jnp.array(lw),False)
sd=np.sqrt(load@load+0.25)
ll=norm.logpdf(0.2-states@load,0,sd)+lw
exp=ll-logsumexp(ll,axis=1)[:,None]
err=np.abs(np.array(out[2])-exp).max()
print("max error",err); sys.exit(int(err>1e-8))
''')

S("s02-missing-weights","C02",[("kalman_filters.py","""    new_log_mixture_weights = jnp.where(
        not_missing.reshape(n_obs, 1), _new_log_mixture_weights, log_mixture_weights
    )
""","""    # residuals of missing measurements are evaluated at the fill values
    new_log_mixture_weights = _new_log_mixture_weights
""")],"two mixture elements with different means and a missing measurement",
"a missing measurement changes the mixture weights of the individual",r'''
import sys
from common import *
from skillmodels.kalman_filters import kalman_update
states=np.array([[[0.0,0.0],[3.0,1.0]],[[0.0,1.0],[2.0,1.0]]]); chol=np.tile(np.eye(2),(2,2,1,1))
chol[:,1]*=1.7
lw=np.log(np.array([[0.3,0.7],[0.3,0.7]]))
out=kalman_update(jnp.array(states),jnp.array(chol),jnp.array([1.0,0.5]),jnp.array([0.0]),0.5,jnp.array([np.nan,0.3]),jnp.ones((2,1)),jnp.array(lw),False)
err=np.abs(np.array(out[2])[0]-lw[0]).max()
print("change of the weights of the individual with a missing measurement",err); sys.exit(int(not err<1e-12))
''')

S("s03-residual-clip","C01",[("kalman_filters.py","""    _residuals = _safe_measurements.reshape(n_obs, 1) - _safe_expected_measurements
""","""    # extreme residuals only arise for implausible start values
    _residuals = jnp.clip(
        _safe_measurements.reshape(n_obs, 1) - _safe_expected_measurements, -100, 100
    )
""")],"a measurement that is more than 100 away from its expectation",
"the update no longer conditions on the observed value",r'''
import sys
from common import *
from skillmodels.kalman_filters import kalman_update
from scipy.stats import norm
states=np.zeros((1,1,1)); chol=np.full((1,1,1,1),100.0)
out=kalman_update(jnp.array(states),jnp.array(chol),jnp.array([1.0]),jnp.array([0.0]),50.0,jnp.array([180.0]),jnp.ones((1,1)),jnp.zeros((1,1)),False)
v=100.0**2; s=v+50.0**2
err=max(abs(float(out[0][0,0,0])-v/s*180.0),abs(float(out[3][0])-norm.logpdf(180.0,0,np.sqrt(s))))
print("error",err); sys.exit(int(err>1e-6))
''')

S("s05-unanchor-period","C03",[("kalman_filters.py","""        transformed_anchored - anchoring_constants[1][:n_observed]
    ) / anchoring_scaling_factors[1][:n_observed]
""","""        transformed_anchored - anchoring_constants[0][:n_observed]
    ) / anchoring_scaling_factors[1][:n_observed]
""")],"anchoring constants that differ between two consecutive periods",
"predicted states are unanchored with the constants of the wrong period",r'''
import sys
from common import *
from skillmodels.kalman_filters import transform_sigma_points
pts=np.random.default_rng(0).normal(size=(2,1,5,2))
sf=np.array([[1.5,2.0],[0.5,3.0]]); co=np.array([[0.1,0.2],[1.0,-1.0]])
out=np.array(transform_sigma_points(jnp.array(pts),{"func":lambda p,s: s*2.0},None,jnp.array(sf),jnp.array(co)))
exp=((pts*sf[0]+co[0])*2.0-co[1])/sf[1]
err=np.abs(out-exp).max(); print("error",err); sys.exit(int(err>1e-8))
''')

S("s06-anchor-later-periods","C04",[("filtered_states.py","""    period_arr = states_df["period"].to_numpy()
""","""    # the arrays start in the first period
    period_arr = (states_df["period"] - states_df["period"].min()).to_numpy()
""")],
"a states DataFrame that does not contain the first period","states are anchored with the parameters of an earlier period",r"""
import sys
from common import *
from skillmodels.filtered_states import anchor_states_df
spec=model(controls=["x"],anchoring={"outcomes":{"a":"q"},"free_constant":True,"free_controls":True,"free_loadings":True})
p=params(spec)
df=pd.DataFrame({"id":[0,0],"period":[1,2],"a":[2.0,3.0],"b":[5.0,6.0]})
out=anchor_states_df(df,spec,p)
exp=[p.loc[("controls",t,"q_a","constant"),"value"]+p.loc[("loadings",t,"q_a","a"),"value"]*v for t,v in [(1,2.0),(2,3.0)]]
err=np.abs(out["a"].to_numpy()-exp).max(); print("error",err); sys.exit(int(err>1e-8))
""")

S("s07-anchoring-update-states","C05",[("likelihood_function.py","""    out = (
        kwargs["states"],
        kwargs["upper_chols"],
        new_log_mixture_weights,
""","""    out = (
        kwargs["states"],
        kwargs["upper_chols"],
        kwargs["log_mixture_weights"],
""")],"a model with anchoring and at least two mixture elements",
"the anchoring update no longer updates the mixture weights",r'''
import sys
from common import *
from skillmodels.likelihood_function import get_maximization_inputs
from skillmodels.kalman_filters import kalman_update
spec=model(n_mixtures=2,anchoring={"outcomes":{"a":"q"},"free_constant":True,"free_loadings":True})
d=data(spec); p=params(spec)
out=get_maximization_inputs(spec,d)["debug_loglike"](p)
m=process_model(spec); ui=m["update_info"]
from skillmodels.parse_params import create_parsing_info, parse_params
pi=create_parsing_info(p.index,ui,m["labels"],m["anchoring"])
st,ch,lw,pd_=parse_params(jnp.array(p["value"].to_numpy()),pi,m["dimensions"],m["labels"],len(d)//3)
total=0
for k,((per,v),purp) in enumerate(ui["purpose"].items()):
    if per>0: break
    y=d.xs(per,level="period")["q" if purp=="anchoring" else v].to_numpy()
    r=kalman_update(st,ch,pd_["loadings"][k],pd_["controls"][k],pd_["meas_sds"][k],jnp.array(y),jnp.ones((len(y),1)),lw,False)
    if purp=="measurement": st,ch=r[0],r[1]
    lw=r[2]; last=k
w=np.exp(np.array(lw))
agg=(np.array(st)*w[:,:,None]).sum(axis=1)
# contribution of the first update of period 1 depends on the weights, compare with the states of all updates
fs=out["post_update_states"]
c=out["all_contributions"]
# recompute contribution of first update in period 1
from skillmodels.kalman_filters import kalman_predict, calculate_sigma_scaling_factor_and_weights
sc,sw=calculate_sigma_scaling_factor_and_weights(2,2)
st1,ch1=kalman_predict(st,ch,sc,sw,m["transition_info"],{k:a[0] for k,a in pd_["transition"].items()},pd_["shock_sds"][0],pd_["anchoring_scaling_factors"][:2],pd_["anchoring_constants"][:2],jnp.zeros((len(y),0)))
k=last+1; per,v=ui.index[k]
r=kalman_update(st1,ch1,pd_["loadings"][k],pd_["controls"][k],pd_["meas_sds"][k],jnp.array(d.xs(per,level="period")[v].to_numpy()),jnp.ones((len(y),1)),lw,False)
got=c[(c["period"]==per)&(c["measurement"]==v)].sort_values("id")["contribution"].to_numpy()
err=np.abs(got-np.array(r[3])).max(); print("error",err); sys.exit(int(err>1e-8))
''')

S("s08-contributions-unclipped","C06",[("likelihood_function.py","\"contributions\": clipped.sum(axis=0),","\"contributions\": loglikes.sum(axis=0),")],
"clipping bounds that are active","contributions do not add up to the value any more",r'''
import sys
from common import *
from skillmodels.likelihood_function import get_maximization_inputs
spec=model(); spec["estimation_options"].update(clipping_lower_bound=-2.0,clipping_lower_hardness=3.0)
out=get_maximization_inputs(spec,data(spec))["loglike"](params(spec))
err=abs(out["value"]-out["contributions"].sum()); print("error",err); sys.exit(int(err>1e-8))
''')

S("s09-hardness","C07",[("clipping.py","""            -jax.scipy.special.logsumexp(upper_hardness * helper, axis=1)
            / upper_hardness
""","""            -jax.scipy.special.logsumexp(upper_hardness * helper, axis=1)
            / max(upper_hardness, lower_hardness)
""")],"a lower hardness that is larger than the upper hardness","the result is not the soft minimum any more",r'''
import sys
from common import *
from skillmodels.clipping import soft_clipping
x=np.array([[-3.0,0.5],[2.0,7.0]])
out=np.array(soft_clipping(jnp.array(x),upper=1.0,upper_hardness=1.0,lower_hardness=3.0))
exp=-np.logaddexp(-x,-1.0)
err=np.abs(out-exp).max(); print("error",err); sys.exit(int(err>1e-8))
''')

S("s10-shock-sds-order","C08",[("parse_params.py","""    return params[info["shock_sds"]].reshape(-1, dimensions["n_latent_factors"])
""","""    return (
        params[info["shock_sds"]]
        .reshape(dimensions["n_latent_factors"], -1)
        .reshape(-1, dimensions["n_latent_factors"], order="F")
        if dimensions["n_mixtures"] > 1
        else params[info["shock_sds"]].reshape(-1, dimensions["n_latent_factors"])
    )
""")],"a model with at least two mixture elements, two factors and three periods","shock standard deviations are assigned to the wrong factors and periods",r'''
import sys
from common import *
from skillmodels.parse_params import create_parsing_info, parse_params
spec=model(n_periods=4,n_mixtures=2); p=params(spec); m=process_model(spec)
pi=create_parsing_info(p.index,m["update_info"],m["labels"],m["anchoring"])
*_,d=parse_params(jnp.array(p["value"].to_numpy()),pi,m["dimensions"],m["labels"],2)
exp=np.array([[p.loc[("shock_sds",t,f,"-"),"value"] for f in "ab"] for t in range(3)])
err=np.abs(np.array(d["shock_sds"])-exp).max(); print("error",err); sys.exit(int(err>1e-8))
''')

S("s11-chol-mixture","C08",[("parse_params.py","        filler = filler.at[jnp.tril_indices(n_states)].set(chol_params[i])\n        upper_chols = upper_chols.at[:, i].set(filler.T)","        filler = filler.at[jnp.tril_indices(n_states)].set(chol_params[i])\n        upper_chols = upper_chols.at[:, i:].set(filler.T)"),
("parse_params.py","    for i in range(n_mixtures):\n        filler","    for i in range(min(n_mixtures, 2)):\n        filler")],
"at least three mixture elements","mixture elements after the second share the Cholesky factor of the second",r'''
import sys
from common import *
from skillmodels.parse_params import create_parsing_info, parse_params
spec=model(n_mixtures=3); p=params(spec); m=process_model(spec)
pi=create_parsing_info(p.index,m["update_info"],m["labels"],m["anchoring"])
_,ch,_,_=parse_params(jnp.array(p["value"].to_numpy()),pi,m["dimensions"],m["labels"],2)
err=max(abs(float(ch[1,k,0,1])-p.loc[("initial_cholcovs",0,f"mixture_{k}","b-a"),"value"]) for k in range(3)); print("error",err); sys.exit(int(err>1e-8))
''')

S("s12-params-align","C09",[("likelihood_function.py","    vec = jnp.array(params.reindex(target_index)[\"value\"].to_numpy())\n","""    if len(params) == len(target_index) and params.index.is_unique:
        params = params.sort_index() if target_index.is_monotonic_increasing else params
    else:
        params = params.reindex(target_index)
    vec = jnp.array(params["value"].to_numpy())
""")],"parameters whose rows are in a different order than the template","values are matched by position instead of label",r'''
import sys
from common import *
from skillmodels.likelihood_function import get_maximization_inputs
spec=model(); f=get_maximization_inputs(spec,data(spec))["loglike"]; p=params(spec)
a=f(p)["value"]; b=f(p.sort_index(ascending=False))["value"]
print(a,b); sys.exit(int(abs(a-b)>1e-8))
''')

S("s13-stage-constraints","C10",[("constraints.py","        if len(stage_periods) > 1:\n            locs_trans = [(\"transition\", p) for p in stage_periods]\n            locs_q = [(\"shock_sds\", p) for p in stage_periods]","        if len(stage_periods) > 1:\n            locs_trans = [(\"transition\", p) for p in stage_periods]\n            locs_q = [(\"shock_sds\", p) for p in stage_periods[:3]]")],
"a stage that consists of at least four periods","shock standard deviations are not equated for all periods of a stage",r'''
import sys
from common import *
from skillmodels.constraints import get_constraints
spec=model(n_periods=6,stagemap=[0,0,0,0,1]); m=process_model(spec)
c=get_constraints(m["dimensions"],m["labels"],m["anchoring"],m["update_info"],m["normalizations"])
locs=[x["locs"] for x in c if x["type"]=="pairwise_equality" and x["locs"][0][0]=="shock_sds"]
print(locs); sys.exit(int(locs!=[[("shock_sds",t) for t in range(4)]]))
''')

S("s14-bounds-existing","C11",[("constraints.py","        if \"lower_bound\" not in df.columns:\n            df[\"lower_bound\"] = -np.inf\n","        df[\"lower_bound\"] = -np.inf\n")],
"a parameter DataFrame that already has lower bounds","existing lower bounds of parameters that are not standard deviations are dropped",r'''
import sys
from common import *
from skillmodels.constraints import add_bounds
spec=model(); p=params(spec); p["lower_bound"]=-7.0
out=add_bounds(p,0.1)
bad=(out.loc["loadings","lower_bound"]!=-7.0).any() or (out.loc["transition","lower_bound"]!=-7.0).any()
sys.exit(int(bad))
''')

S("s15-check-zero-loading","C12",[("check_model.py","            if val == 0:\n","            if val is 0 or val == 0.0 and isinstance(val, float) and not val:\n"),("check_model.py","    for period, norm_dict in enumerate(list_of_normdicts):\n        for var, val in norm_dict.items():","    for period, norm_dict in enumerate(list_of_normdicts[:-1] or list_of_normdicts):\n        for var, val in norm_dict.items():")],
"a loading normalised to zero in the last period with normalisations","an invalid specification is accepted",r'''
import sys
from common import *
spec=model(); spec["factors"]["a"]["normalizations"]={"loadings":[{"a1":1},{"a1":1},{"a1":0}],"intercepts":[{},{},{}]}
try:
    process_model(spec)
except ValueError as e:
    sys.exit(0)
print("zero loading accepted"); sys.exit(1)
''')

S("s16-fill-list-shared","C13",[("process_model.py","    if not default_options[\"robust_bounds\"]:\n        default_options[\"bounds_distance\"] = 0\n","    if not default_options[\"robust_bounds\"]:\n        default_options[\"bounds_distance\"] = 0\n    elif default_options[\"clipping_upper_bound\"] is None:\n        default_options[\"clipping_upper_hardness\"] = 1\n")],
"an upper clipping hardness without upper clipping bound","an option the user set is overwritten with the default",r'''
import sys
from common import *
spec=model(); spec["estimation_options"]["clipping_upper_hardness"]=4
o=process_model(spec)["estimation_options"]; print(o); sys.exit(int(o["clipping_upper_hardness"]!=4))
''')

S("s17-update-order","C14",[("process_model.py","""    for period in labels["periods"]:
        for factor in labels["latent_factors"]:
            for meas in measurements[factor][period]:
""","""    for period in labels["periods"]:
        for factor in labels["latent_factors"]:
            for meas in dict.fromkeys(sorted(measurements[factor][period], key=str)):
""")],
"measurements that are not listed in alphabetical order","the order of the updates is not the order in the specification",r'''
import sys
from common import *
spec=model(); spec["factors"]["a"]["measurements"]=[["z","a1"],["a2","a1"],["a1"]]
ui=process_model(spec)["update_info"]; got=list(ui.index)
exp=[(0,"z"),(0,"a1"),(0,"b1"),(0,"b2"),(1,"a2"),(1,"a1"),(1,"b1"),(1,"b2"),(2,"a1"),(2,"b1"),(2,"b2")]
print(got); sys.exit(int(got!=exp))
''')

S("s18-data-order","C15",[("process_data.py","    df = df.copy(deep=True).sort_index()\n","    df = df.copy(deep=True)\n    if not df.index.is_unique or not df.index.get_level_values(0).is_monotonic_increasing:\n        df = df.sort_index()\n"),("process_data.py","    df = df.reindex(new_index)\n","    if len(df) != len(new_index):\n        df = df.reindex(new_index)\n    df.index = new_index\n")],
"a balanced panel that is sorted by individual but whose periods are not sorted within individuals","values are assigned to the wrong period",r'''
import sys
from common import *
from skillmodels.process_data import process_data
spec=model(); m=process_model(spec); d=data(spec)
d2=d.sort_index(level=[0,1],ascending=[True,False])
a=process_data(d,m["labels"],m["update_info"],m["anchoring"])[0]
b=process_data(d2,m["labels"],m["update_info"],m["anchoring"])[0]
err=float(np.abs(np.array(a)-np.array(b)).max()); print("error",err); sys.exit(int(not err<1e-12))
''')

S("s19-controls-missing-rows","C16",[("process_data.py","        df.loc[problematic_index] = np.nan\n","        df.loc[problematic_index.get_level_values(0).unique()] = np.nan\n")],
"an individual with a missing control in one period and measurements in another","measurements of periods without missing controls are lost",r"""
import sys
from common import *
from skillmodels.process_data import process_data
spec=model(controls=["x"]); m=process_model(spec); d=data(spec)
d.loc[(2,1),"x"]=np.nan
meas=np.array(process_data(d,m["labels"],m["update_info"],m["anchoring"])[0])
k=list(m["update_info"].index).index((2,"a2")); print(meas[k]); sys.exit(int(np.isnan(meas[k]).any()))
""")
S("s20-translog-pairs","C17",[("transition_functions.py","        + [f\"{a} * {b}\" for a, b in combinations(factors, 2)]\n","        + [f\"{a} * {b}\" for a, b in combinations(sorted(factors), 2)]\n")],
"factors that are not in alphabetical order and a translog function with at least two of them","interaction coefficients are assigned to differently named parameters",r'''
import sys
from common import *
import skillmodels.transition_functions as tf
names=tf.params_translog(["c","a","b"])
x=dict(c=2.0,a=3.0,b=5.0); rng=np.random.default_rng(0); p=dict(zip(names,rng.normal(size=len(names))))
exp=p["constant"]
for n,v in p.items():
    if " * " in n: a,b=n.split(" * "); exp+=v*x[a]*x[b]
    elif n.endswith("** 2"): exp+=v*x[n.split()[0]]**2
    elif n!="constant": exp+=v*x[n]
got=float(tf.translog(jnp.array([2.0,3.0,5.0]),jnp.array(list(p.values())))); print(got,exp); sys.exit(int(abs(got-exp)>1e-8))
''')

S("s21-constant-position","C18",[("process_model.py","    for i, factor in enumerate(labels[\"all_factors\"]):\n        functions[factor] = partial(_extract_factor, pos=i)\n","    for i, factor in enumerate(sorted(labels[\"all_factors\"])):\n        functions[factor] = partial(_extract_factor, pos=i)\n")],
"a constant factor and factors that are not in alphabetical order","a constant factor gets the value of another factor",r'''
import sys
from common import *
spec=model(factors=("b","a")); spec["factors"]["a"]["transition_function"]="constant"
m=process_model(spec)
out=np.array(m["transition_info"]["func"]({"b":jnp.array([1.0,0.0,0.0]),"a":jnp.array([])},jnp.array([[3.0,7.0]])))
print(out); sys.exit(int(abs(out[0,1]-7.0)>1e-8))
''')

S("s22-policy-next","C19",[("simulate_data.py","            latent_states[t, :, position] += _get_shock(","            latent_states[t, :, position] = latent_states[0, :, position] * (t > 0) * 0 + latent_states[t, :, position] * (t == 0) + latent_states[t, :, position] * (t > 0) * (len(policies_t) == 1) + _get_shock(")],
"two policies in the same period after the first one","only the last policy of a period has an effect",r'''
import sys
from common import *
from skillmodels.simulate_data import simulate_dataset
spec=model(); p=params(spec)
for c in ("shock_sds","meas_sds","initial_cholcovs"): p.loc[c,"value"]=0.0
pol=[{"period":1,"factor":"a","effect_size":1.0,"standard_deviation":0.0},{"period":1,"factor":"a","effect_size":2.0,"standard_deviation":0.0}]
base=simulate_dataset(spec,p,n_obs=3)["unanchored_states"]["states"]
out=simulate_dataset(spec,p,n_obs=3,policies=pol)["unanchored_states"]["states"]
d=(out[out.period==1]["a"].to_numpy()-base[base.period==1]["a"].to_numpy()); print(d); sys.exit(int(np.abs(d-3.0).max()>1e-8))
''')

S("s23-debug-mixture","C20",[("process_debug_data.py","""    agg_states = (filtered_states * weights.reshape(*weights.shape, 1)).sum(axis=-2)
""","""    # weights only change if there is a measurement
    weights = np.broadcast_to(weights[-1], weights.shape)
    agg_states = (filtered_states * weights.reshape(*weights.shape, 1)).sum(axis=-2)
""")],"two or more mixture elements and several updates","filtered states are aggregated with the weights of the last update",r'''
import sys
from common import *
from skillmodels.process_debug_data import _create_filtered_states
spec=model(n_mixtures=2); ui=process_model(spec)["update_info"]; rng=np.random.default_rng(0)
fs=rng.normal(size=(len(ui),3,2,2)); w=rng.dirichlet([1,1],size=(len(ui),3))
out=_create_filtered_states(fs,np.log(w),ui,["a","b"])
k=[i for i,(t,v) in enumerate(ui.index) if t==0][-1]
exp=(fs[k]*w[k][:,:,None]).sum(axis=1)
err=np.abs(out[out.period==0][["a","b"]].to_numpy()-exp).max(); print("error",err); sys.exit(int(err>1e-8))
''')

S("s24-remove-mutates","C21",[("utilities.py","""    out = deepcopy(model_dict)
    out["controls"] = _remove_from_list(out["controls"], controls)
    if out["controls"] == []:
""","""    out = model_dict.copy() if params is None else deepcopy(model_dict)
    if isinstance(controls, str):
        controls = [controls]
    for control in controls:
        out["controls"].remove(control)
    if out["controls"] == []:
""")],"removing controls without passing params","the input model is changed",r'''
import sys
from common import *
from copy import deepcopy
from skillmodels.utilities import remove_controls
spec=model(controls=["x","y"]); keep=deepcopy(spec)
remove_controls("x",spec); print(spec["controls"]); sys.exit(int(spec!=keep))
''')

S("s25-score-leaveout","C22",[("correlation_heatmap.py","    loadings_count = loadings.astype(bool).groupby(\"name1\").sum()\n    leave_out_meas = loadings_count[loadings_count > 1].index.to_list()\n","    loadings_count = loadings.groupby(\"name1\").count()\n    leave_out_meas = loadings_count[loadings_count > 1].index.to_list()\n")],
"a measurement with two loadings of which one is zero","a measurement that only measures one factor is left out of its score",r'''
import sys
from common import *
from skillmodels.correlation_heatmap import _get_factor_scores_data
from skillmodels.process_data import pre_process_data
spec=model(); spec["factors"]["b"]["measurements"]=[["a1","b1","b2"]]*3
p=params(spec); d=data(spec)
for t in range(3): p.loc[("loadings",t,"a1","b"),"value"]=0.0
m=process_model(spec); pre=pre_process_data(d,[0,1,2])
out=_get_factor_scores_data(pre,p.loc[["controls","loadings"]],m["update_info"],[1],["a","b"],[])
s=0
for v in ("a1","a2"):
    s=s+(d.xs(1,level="period")[v].to_numpy()-p.loc[("controls",1,v,"constant"),"value"])/p.loc[("loadings",1,v,"a"),"value"]
err=np.abs(out["a"].to_numpy()-s/2).max(); print("error",err); sys.exit(int(not err<1e-8))
''')

S("s26-plot-period","C23",[("visualize_transition_equations.py","            output_factor: pardict[\"transition\"][output_factor][period]\n","            output_factor: pardict[\"transition\"][output_factor][\n                model[\"labels\"][\"stagemap\"][period]\n            ]\n")],
"a stagemap in which a stage consists of several periods","the plotted transition uses the parameters of another period",r'''
import sys
from common import *
from skillmodels.visualize_transition_equations import get_transition_plots
spec=model(n_periods=4,stagemap=[0,0,1]); p=params(spec); d=data(spec)
fig=get_transition_plots(spec,p,d,period=2,n_points=5,quantiles_of_other_factors=[0.5])[("a","a")]
x=np.array(fig.data[0].x); y=np.array(fig.data[0].y)
slope=(y[-1]-y[0])/(x[-1]-x[0]); exp=p.loc[("transition",2,"a","a"),"value"]; print(slope,exp); sys.exit(int(abs(slope-exp)>1e-8))
''')
