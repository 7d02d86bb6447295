"""Obligations per property."""
from .check import Obligation as O
from .schema import *
from . import schema as S
from . import terms as tm
from .project import shown, options
from .terms import *

TABLE = {}


def get(pid):
    return TABLE.get(pid, [])


def ob(pid, name, code, spec, inputs, **kw):
    if not code.startswith("spec."):
        code = "skillmodels." + code
    if kw.get("where"):
        kw["where"] = "skillmodels." + kw["where"]
    TABLE.setdefault(pid, []).append(O(name, code, "spec." + spec, inputs, **kw))


def nodesc(r, post):
    return S.drop_keys(r, {"description"})


def constraints_with(*marks, ids=False):
    """the constraints of a list that mention one of the marks (or no known mark), without texts and running ids"""
    known = {"controls", "loadings", "pairwise_equality", "mixture_weights", "increasing", "shock_sds", "constraints_"}

    def of(its):
        out = []
        for i in its:
            if i.op == "for":
                vs, (n, *sub_) = tm.unbind(i)
                out.append(tm.mk_for(vs[0], n, of(sub_)))
            elif i.op == "if":
                out += tm.mk_if(i.args[0], of(i.args[1].args), of(i.args[2].args))
            else:
                out.append(i)
        return tm.norm_items(out)

    def keep(its):
        out = []
        for i in its:
            if i.op == "if":
                out += tm.mk_if(i.args[0], keep(i.args[1].args), keep(i.args[2].args))
                continue
            ks = set()
            S.consts(i, ks, set())
            ks &= known
            if not marks or not ks or ks & set(marks):
                out.append(i)
        return tm.norm_items(out)

    def select(r, post):
        r = S.drop_keys(r, {"description", "id"})
        if r.op == "seq":
            return tm.seq("list", keep(of(r.args[1:])))
        return r
    return select


def lacks(e, key):
    """a dictionary literal without the key"""
    return e.op == "upd" and e.args[0] is tm.EMPTYDICT and all(i.op == "pair" and i.args[0].op == "const" and i.args[0] is not key for i in e.args[1:])


def elements(its):
    for i in its:
        if i.op == "for":
            yield from elements(tm.unbind(i)[1][1:])
        elif i.op == "if":
            yield from elements(i.args[1].args + i.args[2].args)
        elif i.op == "it":
            yield i.args[0]


def running_ids(r, post):
    r = nodesc(r, post)
    if r.op == "seq" and any(lacks(e, tm.const("id")) for e in elements(r.args[1:])):
        return tm.const("a constraint without id")
    return tm.seq("list", [tm.it(tm.getitem(x, tm.const("id"))) if x.op == "it" else x for x in _each(r, lambda e: tm.getitem(e, tm.const("id")))])


def _each(r, f):
    out = []
    for i in r.args[1:] if r.op == "seq" else []:
        if i.op == "for":
            vs, (n, *sub_) = tm.unbind(i)
            if len(sub_) == 1 and sub_[0].op == "it":
                i = tm.mk_for(vs[0], n, [tm.it(f(sub_[0].args[0]))])
        out.append(i)
    return out


# ------------------------------------------------------------------ C12 (index side)
ob("C12", "control labels", "params_index.get_control_params_index_tuples", "index.control_labels", ["controls", "update_info"])
ob("C12", "loading labels", "params_index.get_loadings_index_tuples", "index.loading_labels", ["factors", "update_info"])
ob("C12", "measurement sd labels", "params_index.get_meas_sds_index_tuples", "index.meas_sd_labels", ["update_info"])
ob("C12", "shock sd labels", "params_index.get_shock_sds_index_tuples", "index.shock_sd_labels", ["periods", "factors"])
ob("C12", "initial mean labels", "params_index.initial_mean_index_tuples", "index.initial_mean_labels", ["n_mixtures", "factors"])
ob("C12", "mixture weight labels", "params_index.get_mixture_weights_index_tuples", "index.mixture_weight_labels", ["n_mixtures"])
ob("C12", "initial cholesky labels", "params_index.get_initial_cholcovs_index_tuples", "index.cholcov_labels", ["n_mixtures", "factors"])
ob("C12", "transition labels", "params_index.get_transition_index_tuples", "index.transition_labels", ["transition_info", "periods"])
ob("C12", "full index", "params_index.get_params_index", "index.full_index", ["update_info", "labels", "dimensions", "transition_info"])

# ------------------------------------------------------------------ C15-C18
_AC = ["dimensions", "labels", "anchoring_info", "update_info", "normalizations"]
ob("C15", "normalization constraints", "constraints._get_normalization_constraints", "constr.normalization", ["normalizations", "factors"], select=nodesc, effects={"raise"})
ob("C15", "anchoring constraints", "constraints._get_anchoring_constraints", "constr.anchoring", ["update_info", "controls", "anchoring_info", "periods"], select=nodesc)
ob("C15", "collected constraints", "constraints.get_constraints", "constr.all_constraints", _AC, select=constraints_with("controls", "loadings"))
ob("C16", "stage constraints", "constraints._get_stage_constraints", "constr.stage", ["stagemap", "stages"], select=nodesc)
ob("C16", "collected constraints", "constraints.get_constraints", "constr.all_constraints", _AC, select=constraints_with("pairwise_equality"))
ob("C17", "mixture weight constraint", "constraints._get_mixture_weights_constraints", "constr.mixture", ["n_mixtures"], select=nodesc)
ob("C17", "initial ordering constraint", "constraints._get_initial_states_constraints", "constr.ordering", ["n_mixtures", "factors"], select=nodesc)
ob("C17", "constant factor constraint", "constraints._get_constant_factors_constraints", "constr.constant", ["labels"], select=nodesc)
ob("C17", "transition constraint", "constraints._get_transition_constraints", "constr.transition", ["labels"], select=nodesc)
ob("C17", "collected constraints", "constraints.get_constraints", "constr.all_constraints", _AC, select=constraints_with())
ob("C17", "running ids", "constraints.get_constraints", "constr.all_constraints", _AC, select=running_ids)
ob("C18", "bounds", "constraints.add_bounds", "constr.bounds", {"params_df": None, "bounds_distance": IN("bounds_distance", "float")})

# ------------------------------------------------------------------ kalman filters
n_obs, n_mix, n_lat, n_all, n_ctrl, n_of = (S.N(x) for x in ("n_obs", "n_mix", "n_latent", "n_all", "n_controls", "n_observed"))
n_sig = tm.add(tm.mul(const(2), n_lat), ONE)
UPDATE_IN = dict(
    states=S.ARR("states", n_obs, n_mix, n_lat), upper_chols=S.ARR("upper_chols", n_obs, n_mix, n_lat, n_lat),
    loadings=S.ARR("loadings", n_lat), control_params=S.ARR("control_params", n_ctrl), meas_sd=S.ARR("meas_sd"),
    measurements=S.ARR("measurements", n_obs), controls=S.ARR("controls", n_obs, n_ctrl),
    log_mixture_weights=S.ARR("log_mixture_weights", n_obs, n_mix), debug=IN("debug", "bool"))
PREDICT_IN = dict(
    states=UPDATE_IN["states"], upper_chols=UPDATE_IN["upper_chols"], sigma_scaling_factor=S.ARR("sigma_scaling_factor"),
    sigma_weights=S.ARR("sigma_weights", n_sig), transition_info=IN("transition_info", "dict"), trans_coeffs=IN("trans_coeffs", "dict"),
    shock_sds=S.ARR("shock_sds", n_lat),
    anchoring_scaling_factors=S.ARR("anchoring_scaling_factors", const(2), tm.add(n_lat, n_of)),
    anchoring_constants=S.ARR("anchoring_constants", const(2), tm.add(n_lat, n_of)),
    observed_factors=S.ARR("observed_factors", n_obs, n_of))


def pick(*ks):
    def f(r, post):
        return seq("tuple", [it(getitem(r, const(k))) for k in ks])
    return f


KU = "kalman_filters.kalman_update"
ob("C02", "kalman update", KU, "kalman.update", UPDATE_IN, arrays=True)
ob("C05", "sigma weights", "kalman_filters.calculate_sigma_scaling_factor_and_weights", "kalman.weights",
   {"n_states": n_lat, "kappa": IN("kappa", "float")}, arrays=True)
ob("C05", "sigma points", "kalman_filters._calculate_sigma_points", "kalman.sigma_points",
   {"states": PREDICT_IN["states"], "upper_chols": PREDICT_IN["upper_chols"], "scaling_factor": PREDICT_IN["sigma_scaling_factor"],
    "observed_factors": PREDICT_IN["observed_factors"]}, arrays=True)
ob("C07", "transformation of sigma points", "kalman_filters.transform_sigma_points", "kalman.transform",
   {"sigma_points": S.ARR("sigma_points", n_obs, n_mix, n_sig, tm.add(n_lat, n_of)),
    **{k: PREDICT_IN[k] for k in ("transition_info", "trans_coeffs", "anchoring_scaling_factors", "anchoring_constants")}}, arrays=True)
ob("C06", "kalman predict", "kalman_filters.kalman_predict", "kalman.predict", PREDICT_IN, arrays=True)

# ------------------------------------------------------------------ clipping
n_upd = S.N("n_updates")
ob("C09", "soft clipping", "clipping.soft_clipping", "clipping.clip",
   {"arr": S.ARR("arr", n_upd, n_obs), **{k: S.ARR(k) for k in ("lower", "upper", "lower_hardness", "upper_hardness")}}, arrays=True)
ob("C09", "soft clipping of vectors", "clipping.soft_clipping", "clipping.clip",
   {"arr": S.ARR("arr1", n_obs), **{k: S.ARR(k) for k in ("lower", "upper", "lower_hardness", "upper_hardness")}}, arrays=True)

# ------------------------------------------------------------------ likelihood
def stubs(*names):
    where = {"kalman_update": "kalman_filters", "kalman_predict": "kalman_filters", "soft_clipping": "clipping",
             "parse_params": "parse_params", "process_model": "process_model", "get_params_index": "params_index",
             "create_parsing_info": "parse_params", "process_data": "process_data", "process_debug_data": "process_debug_data",
             "calculate_sigma_scaling_factor_and_weights": "kalman_filters", "get_constraints": "constraints", "add_bounds": "constraints",
             "anchor_states_df": "filtered_states", "create_state_ranges": "process_debug_data", "transform_sigma_points": "kalman_filters",
             "measurements_from_states": "simulate_data", "pre_process_data": "process_data", "get_maximization_inputs": "likelihood_function", "get_filtered_states": "filtered_states",
             "remove_factors": "utilities", "reduce_n_periods": "utilities"}
    other = {"calculate_sigma_scaling_factor_and_weights": "sigma_weights"}
    return {f"skillmodels.{where[n]}.{n}": "spec.stub." + other.get(n, n) for n in (names or [w for w in where if w not in ("get_maximization_inputs", "pre_process_data", "get_filtered_states", "remove_factors", "reduce_n_periods")])}


LIK_IN = {"model_dict": IN("model_dict", "dict"), "data": None, "jacobian_type": IN("jacobian_type", "str")}
LIK = dict(stubs=stubs())
GMI = "likelihood_function.get_maximization_inputs"


def keys(*ks, then=None):
    def f(r, post):
        t = pick(*ks)(r, post)
        return then(t) if then else t
    return f


def scan_args(name, *keep, pp=()):
    """the arguments of one stable function inside the step of the filter loop"""
    def f(r, post):
        t = S.blind(pp_=list(pp), pd_=[1, 4])(keys("loglike")(r, post))
        found = {}
        for s in tm.walk(t):
            if s.op in ("scan", "scanout") and s.args[0].op == "lam":
                vs, body = tm.unbind(s.args[0])
                for c in tm.walk(body[0]):
                    if c.op == "call" and c.args[0] == "U." + name:
                        x = tm.bind("lam", vs, [seq("tuple", [it(c.args[1 + k]) for k in keep])])
                        found[x.id] = x
        return next(iter(found.values())) if len(found) == 1 else tm.opaque("calls of " + name, tm.fresh("missing"))
    return f


def call_args(name, *keep, key="loglike", blind=()):
    """the arguments of one stable function, wherever it is called"""
    def f(r, post):
        t = keys(key)(r, post) if key else r
        found = {}
        for c in tm.walk(t):
            if c.op == "call" and (c.args[0] == "U." + name or name == "pp_" and c.args[0].startswith("U.pp_") and c.args[0] != "U.pp_transition"):
                x = S.blind(**dict(blind))(seq("tuple", [it(c.args[1 + k]) for k in (keep or range(len(c.args) - 1))]))
                found[x.id] = x
        return next(iter(found.values())) if len(found) == 1 else tm.opaque("calls of " + name, tm.fresh("missing"))
    return f


for _pid, _n, _sel in [
        ("C01", "measurements and controls of the row", scan_args("ku_loglikes", 5, 6)),
        ("C02", "arguments of the update", scan_args("ku_loglikes", 2, 3, 4, 5, 6)),
        ("C05", "sigma points of the prediction", scan_args("kp_states", 2, 3, 9)),
        ("C06", "shock standard deviations of the prediction", scan_args("kp_states", 6)),
        ("C07", "anchoring of the prediction", scan_args("kp_states", 7, 8)),
        ("C14", "transition parameters of the prediction", scan_args("kp_states", 4, 5)),
        ("C12", "parsed with the index of the model", call_args("pp_", 0, 1, 2, 3, blind={"pd_": []})),
        ("C22", "data of the likelihood", call_args("pd_measurements")),
        ("C19", "dimensions and labels of the index", call_args("params_index", key="params_template"))]:
    ob(_pid, _n, GMI, "likelihood.inputs", LIK_IN, stubs=stubs(), select=_sel)
ob("C18", "template of the parameters", GMI, "likelihood.inputs", LIK_IN, stubs=stubs(), select=keys("params_template"))
for _pid in ("C15", "C16", "C17"):
    ob(_pid, "constraints of the model", GMI, "likelihood.inputs", LIK_IN, stubs=stubs(), select=keys("constraints"))
ob("C03", "anchoring rows", GMI, "likelihood.inputs", LIK_IN, stubs=stubs(),
   select=keys("loglike", "debug_loglike", then=S.blind(kp_=[], soft_clipping=[0], pp_=[])))
ob("C04", "filter recursion", GMI, "likelihood.inputs", LIK_IN, stubs=stubs(), select=keys("loglike", then=S.blind(soft_clipping=[0])))
ob("C08", "all outputs", GMI, "likelihood.inputs", LIK_IN, stubs=stubs())
ob("C10", "debug output", GMI, "likelihood.inputs", LIK_IN, stubs=stubs(), select=keys("loglike", "debug_loglike"))
ob("C09", "clipping of contributions", GMI, "likelihood.inputs", LIK_IN, stubs=stubs(), select=keys("loglike", "gradient", then=S.blind(ku_=[], kp_=[], pp_=[])))
for _n in ("loglike", "gradient", "jacobian", "loglike_and_gradient", "debug_loglike"):
    ob("C11", "parameters of " + _n, "spec.harness.call_" + _n, "harness.ref_" + _n, dict(LIK_IN, params=None), stubs=stubs(), effects={"raise"},
       where=GMI, select=lambda r, post: S.blind(ku_=[], kp_=[], process_debug_data=[])(r))
ob("C33", "debug likelihood checks precision", "spec.harness.call_debug_loglike", "harness.ref_debug_loglike", dict(LIK_IN, params=None), stubs=stubs(),
   effects={"raise"}, where=GMI, select="none")

from .rules import Precision  # noqa: E402
TABLE.setdefault("C33", []).append(Precision("64-bit floats throughout"))

# ------------------------------------------------------------------ C13 transition functions
n_fac = S.N("n_fac")
_nsq = tm.add(tm.mul(const(2), n_fac), ONE)
_ntl = IN("n_translog", "int")
_TR = {"linear": tm.add(n_fac, ONE), "translog": _ntl, "robust_translog": _ntl, "linear_and_squares": _nsq,
       "log_ces": tm.add(n_fac, ONE), "log_ces_general": _nsq}
for _f, _n in _TR.items():
    ob("C13", _f, f"transition_functions.{_f}", f"transition.{_f}",
       {"states": S.ARR("fstates", n_fac), "params": S.ARR("fparams_" + _f, _n)}, arrays=True)
ob("C13", "constant", "transition_functions.constant", "transition.constant", {"state": S.ARR("fstate"), "params": None})
for _f in list(_TR) + ["constant"]:
    ob("C13", f"names of {_f}", f"transition_functions.params_{_f}", f"transition.names_{'translog' if _f == 'robust_translog' else _f}", ["factors"])
ob("C13", "constraint of log_ces", "transition_functions.constraints_log_ces", "transition.constraints_log_ces", {"factor": None, "factors": None, "period": None})

# ------------------------------------------------------------------ parsing
PARSE_IN = dict(params=S.ARR("params", S.N("n_params")), params_index=None, update_info=None, labels=None, anchoring=S.ATTACHED["anchoring_info"],
                dimensions=None, n_obs=n_obs)
ob("C12", "parsed parameters", "spec.harness.parse", "parsing.parse", PARSE_IN, where="parse_params.parse_params", arrays=True)

# ------------------------------------------------------------------ C01 missing measurements
from .rules import Listed, NanTaint, Message  # noqa: E402

ob("C01", "missing measurement leaves everything unchanged", KU, "kalman.update", UPDATE_IN, arrays=True)
TABLE["C01"].append(NanTaint("missing values never enter arithmetic", "skillmodels." + KU, UPDATE_IN, ["measurements", "controls"], "measurements"))
from .rules import Defect  # noqa: E402


def predict_flags(r, post):
    """the boolean row flag that decides about prediction"""
    t = keys("loglike", then=S.blind(soft_clipping=[0], ku_=[], pp_=[0], kp_=[]))(r, post)
    return t


TABLE["C04"].append(Defect("periods without updates", "skillmodels." + GMI, "spec.likelihood.inputs", LIK_IN, stubs=stubs(),
                           select=predict_flags, why="prediction only follows a row whose next row is in the next period, so a period without any update row is not predicted through"))

# ------------------------------------------------------------------ process_model
MODEL_TYPE = ("dict", None, {
    "factors": ("dict", ("dict", None, {"measurements": ("list", ("list", "str")), "normalizations": ("dict", ("list", ("dict", "float"))),
                                        "transition_function": None})),
    "observed_factors": ("list", "str"), "controls": ("list", "str"), "stagemap": ("list", "int"), "estimation_options": ("dict", None, {"robust_bounds": "bool"}),
    "anchoring": ("dict", None, {"outcomes": ("dict", "str"), "ignore_constant_when_anchoring": "bool"})})
SPEC_IN = {"model_dict": S.TY("specification", MODEL_TYPE)}
NOCHECK = {"skillmodels.check_model.check_model": "spec.model.check"}
PM = "process_model.process_model"
ob("C14", "transition functions", PM, "model.process", SPEC_IN, stubs=NOCHECK, select=keys("transition_info"), effects={"raise:AttributeError"})
ob("C19", "dimensions, labels and options", PM, "model.process", SPEC_IN, stubs=NOCHECK,
   select=keys("dimensions", "labels", "anchoring", "estimation_options"))
ob("C20", "update list", PM, "model.process", SPEC_IN, stubs=NOCHECK, select=keys("update_info"))
ob("C15", "completed normalizations", PM, "model.process", SPEC_IN, stubs=NOCHECK, select=keys("normalizations"))

# ------------------------------------------------------------------ C21 validity of specifications
CHECK_IN = {"model_dict": S.TY("unchecked_specification", MODEL_TYPE), "labels": None, "dimensions": None,
            "anchoring": S.TY("unchecked_anchoring", ("dict", None, {"outcomes": ("dict", "str")}))}
tm.UNCHECKED |= {CHECK_IN["model_dict"].id, CHECK_IN["anchoring"].id}
ob("C21", "invalid specifications", "check_model.check_model", "valid.check", CHECK_IN, effects={"raise"}, select="none", anchor="private")
ob("C21", "rejected specifications", PM, "valid.process", {"model_dict": CHECK_IN["model_dict"]}, effects={"raise:ValueError"}, select="none")
TABLE["C21"].append(Listed("listed problems", "skillmodels.check_model.check_model", "spec.valid.check", CHECK_IN, effects={"raise:ValueError"}, anchor="private"))

# ------------------------------------------------------------------ C22 - C24 data
DATA_IN = {"df": None, "labels": None, "update_info": None, "anchoring_info": None}
PD = "process_data.process_data"
for _p in ("estimation", "simulation"):
    ob("C22", f"arrays for {_p}", PD, "data.process", dict(DATA_IN, purpose=const(_p)), anchor="private")
    ob("C23", f"unusable data for {_p}", PD, "data.process", dict(DATA_IN, purpose=const(_p)), effects={"raise:ValueError"}, select="none", anchor="private")
ob("C24", "blanked rows", "process_data._handle_controls_with_missings", "data.blank",
   {"df": None, "controls": None, "update_info": None, "observed_factors": S.OF}, effects={"warning"})
TABLE["C24"].append(Message("warning", "skillmodels.process_data._handle_controls_with_missings", "spec.data.blank",
                            {"df": None, "controls": None, "update_info": None, "observed_factors": S.OF}, effects={"warn"}))
TABLE["C23"].append(Message("reported problems", "skillmodels." + PD, "spec.data.process", dict(DATA_IN, purpose=const("estimation")), effects={"raise:ValueError"}, anchor="private"))
TABLE["C23"].append(Message("reported problems of simulations", "skillmodels." + PD, "spec.data.process", dict(DATA_IN, purpose=const("simulation")), effects={"raise:ValueError"}, anchor="private"))
ob("C22", "balanced panel", "process_data.pre_process_data", "data.balanced", {"df": None, "periods": None})

# ------------------------------------------------------------------ C25, C26 simulation
SIM_IN = {"model_dict": IN("model_dict", "dict"), "params": None, "n_obs": IN("n_obs"), "data": None, "policies": S.TY("policies", ("list", ("dict", None, {"factor": "str", "period": "int"})))}
SIM = "simulate_data.simulate_dataset"
SIMSTUBS = stubs("process_model", "process_data", "get_params_index", "create_parsing_info", "parse_params", "transform_sigma_points", "anchor_states_df",
                 "create_state_ranges", "measurements_from_states")
ob("C25", "simulated states", SIM, "simulation.simulate", SIM_IN, stubs=SIMSTUBS, select=keys("unanchored_states", "anchored_states"))
ob("C26", "simulated measurements", SIM, "simulation.simulate", SIM_IN, stubs=SIMSTUBS, select=keys("measurements"))
ob("C26", "rejected inputs", SIM, "simulation.simulate", SIM_IN, stubs=SIMSTUBS, select="none", effects={"raise:ValueError", "warning"})
SIM_NODATA = dict(SIM_IN, data=tm.NONE)
ob("C25", "simulated states without data", SIM, "simulation.simulate", dict(SIM_NODATA, policies=tm.NONE), stubs=SIMSTUBS, select=keys("unanchored_states", "anchored_states"))
ob("C26", "simulated measurements without data", SIM, "simulation.simulate", dict(SIM_NODATA, policies=tm.NONE), stubs=SIMSTUBS, select=keys("measurements"))
ob("C26", "rejected inputs without data", SIM, "simulation.simulate", SIM_NODATA, stubs=SIMSTUBS, select="none", effects={"raise:ValueError", "warning"})
ob("C26", "measurement equation", "simulate_data.measurements_from_states", "simulation.measurements",
   {"states": S.ARR("sim_states", n_obs, n_lat), "controls": S.ARR("sim_controls", n_obs, n_ctrl), "loadings": S.ARR("sim_loadings", S.N("n_meas"), n_lat),
    "control_params": S.ARR("sim_control_params", S.N("n_meas"), n_ctrl), "sds": S.ARR("sim_sds", S.N("n_meas"))})

# ------------------------------------------------------------------ C27, C28 debug data and filtered states
DBG = "process_debug_data.process_debug_data"
n_upd_ = S.N("n_updates")
DBG_ARR = {"filtered_states": (n_upd_, n_obs, n_mix, n_lat), "log_mixture_weights": (n_upd_, n_obs, n_mix), "residuals": (n_upd_, n_obs, n_mix),
           "residual_sds": (n_upd_, n_obs, n_mix), "all_contributions": (n_upd_, n_obs)}
DBG_IN = {"debug_data": tm.upd(IN("debug_data", "dict"), [tm.pair(const(k), S.ARR("debug_" + k, *d, eager=True)) for k, d in DBG_ARR.items()]), "model": S.TY("model", ("dict", None, {"labels": ("dict", ("list", "str")), "update_info": "df"}))}
ob("C27", "debug tables", DBG, "debugdata.tables", DBG_IN, select=keys("post_update_states", "residuals", "residual_sds", "all_contributions"), anchor="private")
ob("C28", "filtered states", DBG, "debugdata.tables", DBG_IN, select=keys("filtered_states", "state_ranges"), anchor="private")
ANCHOR_IN = {"states_df": IN("states_df", "df"), "model_dict": IN("model_dict", "dict"), "params": None}
FSTUBS = stubs("process_model", "get_params_index", "create_parsing_info", "parse_params")
ob("C28", "anchored states", "filtered_states.anchor_states_df", "debugdata.anchored", ANCHOR_IN, stubs=FSTUBS, anchor="private")
ob("C07", "anchored output states", "filtered_states.anchor_states_df", "debugdata.anchored", ANCHOR_IN, stubs=FSTUBS, anchor="private")
ob("C28", "filtered states and ranges", "filtered_states.get_filtered_states", "debugdata.filtered_states",
   {"model_dict": IN("model_dict", "dict"), "data": None, "params": None},
   stubs=stubs("process_model", "anchor_states_df", "create_state_ranges", "get_maximization_inputs"))

# ------------------------------------------------------------------ C29, C30 transformations of models and parameters
RED_STUBS = stubs("process_model", "get_params_index")
NAMES = TY_NAMES = IN("names", None)
_MD = SPEC_IN["model_dict"]
_RED = {"extract_factors": ("factors_extracted", {"factors": NAMES}), "remove_factors": ("factors_removed", {"factors": NAMES}),
        "remove_measurements": ("measurements_removed", {"measurements": NAMES}), "remove_controls": ("controls_removed", {"controls": NAMES}),
        "switch_translog_to_linear": ("to_linear", {}), "switch_linear_to_translog": ("to_translog", {}),
        "reduce_n_periods": ("periods_reduced", {"new_n_periods": IN("new_n_periods", "int")})}
for _f, (_s, _i) in _RED.items():
    _in = dict(_i, model_dict=_MD)
    ob("C29", _f, "utilities." + _f, "reduce." + _s, dict(_in, params=NONE), stubs=RED_STUBS, effects={"warning"} if _f == "remove_measurements" else None)
    ob("C30", _f, "utilities." + _f, "reduce." + _s, dict(_in, params=None), stubs=RED_STUBS, select=lambda r, post: tm.getitem(r, ONE))
    ob("C29", _f + " with parameters", "utilities." + _f, "reduce." + _s, dict(_in, params=None), stubs=RED_STUBS, select=lambda r, post: tm.getitem(r, ZERO))
ob("C29", "extraction as removal", "utilities.extract_factors", "reduce.extraction", {"factors": NAMES, "model_dict": _MD, "params": NONE}, stubs=stubs("remove_factors"))
ob("C29", "periods after a removal", "utilities.remove_factors", "reduce.removal", {"factors": NAMES, "model_dict": _MD, "params": NONE}, stubs=stubs("reduce_n_periods"))
ob("C30", "update_parameter_values", "utilities.update_parameter_values", "reduce.updated_values", {"params": None, "others": IN("others", None)})

# ------------------------------------------------------------------ C37 correlation tables
CORR_IN = {"data": IN("data", "df"), "model_dict": IN("model_dict", "dict"), "factors": IN("factors"), "periods": IN("periods")}
CORR_STUBS = stubs("process_model", "pre_process_data")
CH = "correlation_heatmap."
for _f in ("measurements_corr", "quasi_scores_corr"):
    ob("C37", _f, CH + "get_" + _f, "corr." + _f, CORR_IN, stubs=CORR_STUBS, given="corr.known")
ob("C37", "scores_corr", CH + "get_scores_corr", "corr.scores_corr", dict(CORR_IN, params=IN("params", "df")), stubs=CORR_STUBS, given="corr.known")
_TAB_IN = {"data": IN("data", "df"), "update_info": IN("update_info", "df"), "latent_factors": IN("latent", "list"), "observed_factors": IN("observed", "list")}
_HM = ("corr heatmap_kwargs layout_kwargs rounding zmax zmin zmid colorscale show_color_bar show_diagonal show_upper_triangle trim_heatmap annotate "
       "annotation_fontsize annotation_text_color annotation_text_angle axes_tick_fontsize axes_tick_label_angle axes_tick_label_color")
_HMK = {n: IN(n) for n in _HM.split()} | {"corr": IN("corr", "df"), "trim_heatmap": IN("trim_heatmap", "bool")}
tm.OPTIONAL_NUMBERS |= {_HMK[n].id for n in ("zmax", "zmin", "zmid", "rounding")}
ob("C37", "heatmap", CH + "plot_correlation_heatmap", "corr.heatmap", _HMK, select=shown)
ob("C38", "heatmap", CH + "plot_correlation_heatmap", "corr.heatmap", _HMK, select=options)
ob("C37", "mask", CH + "_get_mask", "corr.mask", {"corr": IN("corr", "df"), "show_upper_triangle": IN("show_upper_triangle", "bool"), "show_diagonal": IN("show_diagonal", "bool")})

# ------------------------------------------------------------------ C35, C36 plots and their options (C38)
def plot(pid, name, *a, effects=None, **kw):
    ob(pid, name, *a, select=shown, effects=effects, **kw)
    ob("C38", name, *a, select=options, **kw)


def kinds(names, **types):
    return {n: (types[n] if isinstance(types.get(n), T) else IN(n, types.get(n))) for n in names.split()}


PLOT_STUBS = stubs("process_model", "get_filtered_states", "process_data", "parse_params", "create_parsing_info", "get_params_index",
                   "create_state_ranges", "pre_process_data")
VT, VD = "visualize_transition_equations.", "visualize_factor_distributions."
_CT = "plots_dict column_order row_order factor_mapping make_subplot_kwargs sharex sharey showlegend layout_kwargs legend_kwargs title_kwargs"
for _n, _v in {"lists": IN("order", "list"), "strings": IN("order", "str"), "default": NONE}.items():
    _i = {} if _v is NONE else {"column_order": IN("column_order", _v.args[1]), "row_order": IN("row_order", _v.args[1])}
    plot("C35", f"combined plots, orders {_n}", VT + "combine_transition_plots", "plots.combined_transitions",
       kinds(_CT, **(_i or {"column_order": NONE, "row_order": NONE}), plots_dict=IN("plots_dict", "dict")))
_GT = "model_dict params data period state_ranges quantiles_of_other_factors n_points n_draws colorscale layout_kwargs"
for _n, _v in {"fixed at quantiles": IN("quantiles", "list"), "fixed at one quantile": IN("quantiles", "float"), "averaged": NONE}.items():
    plot("C35", f"transition plots, other factors {_n}", VT + "get_transition_plots", "plots.transition_plots",
       kinds(_GT, model_dict=IN("model_dict", "dict"), params=IN("params", "df"), data=IN("data", "df"), period=IN("period", "int"),
             quantiles_of_other_factors=_v), stubs=PLOT_STUBS, effects={"raise"})
_UD = "data model_dict params period factors observed_factors states show_curve show_hist show_rug curve_type colorscale bin_size distplot_kwargs layout_kwargs"
_BC = ("data model_dict params period factors observed_factors states n_points contour_kwargs layout_kwargs contours_showlabels "
       "contours_coloring contours_colorscale lines_colorscale showcolorbar")
_BS = ("data model_dict params period factors observed_factors states n_points layout_kwargs colorscale opacity showcolorbar "
       "showgrids showaxlines showlabels")
for _n, _v in {"filtered states": NONE, "given states": IN("states", "df"), "several scenarios": IN("states", "dict")}.items():
    _k = dict(data=IN("data", "df"), model_dict=IN("model_dict", "dict"), params=IN("params", "df"), period=IN("period", "int"), states=_v)
    plot("C36", f"univariate densities, {_n}", VD + "univariate_densities", "plots.univariate", kinds(_UD, **_k), stubs=PLOT_STUBS, effects={"raise"})
    plot("C36", f"contours, {_n}", VD + "bivariate_density_contours", "plots.contours", kinds(_BC, **_k), stubs=PLOT_STUBS, effects={"raise"})
    plot("C36", f"surfaces, {_n}", VD + "bivariate_density_surfaces", "plots.surfaces", kinds(_BS, **_k), stubs=PLOT_STUBS, effects={"raise"})
_CD = ("kde_plots contour_plots surface_plots factor_order factor_mapping make_subplot_kwargs sharex sharey line_width showlegend "
       "layout_kwargs legend_kwargs title_kwargs eye_x eye_y eye_z")
for _n, _v in {"list": IN("factor_order", "list"), "string": IN("factor_order", "str"), "default": NONE}.items():
    plot("C36", f"combined plots, order {_n}", VD + "combine_distribution_plots", "plots.combined_distributions",
       kinds(_CD, factor_order=_v, kde_plots=IN("kde_plots", "dict"), contour_plots=IN("contour_plots", "dict")))

# ------------------------------------------------------------------ the same quantities at the other places where they are used
for _pid, _n, _sel in [("C11", "parameters of simulations", call_args("pp_", 0, key=None, blind={"process_data": []})),
                       ("C12", "parsed for simulations", call_args("pp_", 1, 2, 3, key=None)),
                       ("C14", "transitions of simulations", call_args("transformed", 1, 2, key=None, blind={"pp_": [0], "parsing_info": []})),
                       ("C07", "anchoring of simulations", call_args("transformed", 3, 4, key=None, blind={"pp_": [], "parsing_info": []}))]:
    ob(_pid, _n, SIM, "simulation.simulate", SIM_IN, stubs=SIMSTUBS, select=_sel)
for _pid, _n, _sel in [("C11", "parameters of anchored states", call_args("pp_", 0, key=None)),
                       ("C12", "parsed for anchored states", call_args("pp_", 1, 2, 3, key=None))]:
    ob(_pid, _n, "filtered_states.anchor_states_df", "debugdata.anchored", ANCHOR_IN, stubs=FSTUBS, select=_sel, anchor="private")



def debug_entry(*names):
    """entries of the data that the debug tables are built from"""
    def f(r, post):
        t = keys("debug_loglike")(r, post)
        found = {}
        for c in tm.walk(t):
            if c.op == "call" and c.args[0] == "U.process_debug_data":
                x = seq("tuple", [it(tm.getitem(c.args[1], const(n))) for n in names])
                found[x.id] = x
        return next(iter(found.values())) if len(found) == 1 else tm.opaque("debug data", tm.fresh("missing"))
    return f


def options_of(*names):
    def f(r, post):
        o = tm.getitem(r, const("estimation_options"))
        return seq("tuple", [it(tm.getitem(o, const(n))) for n in names])
    return f


def info_of(*names):
    def f(r, post):
        o = tm.getitem(r, const("transition_info"))
        return seq("tuple", [it(tm.getitem(o, const(n))) for n in names])
    return f


for _pid, _n, _sel in [("C04", "states reported for a row", debug_entry("filtered_states")),
                       ("C28", "states after the last measurement", debug_entry("filtered_states", "log_mixture_weights")),
                       ("C27", "numbers of a row", debug_entry("filtered_states", "residuals", "residual_sds", "all_contributions")),
                       ("C27", "model of the tables", call_args("process_debug_data", 1, key="debug_loglike")),
                       ("C05", "scale of the sigma points", call_args("sigma_scaling")),
                       ("C09", "clipping options", call_args("soft_clipping", 1, 2, 3, 4))]:
    ob(_pid, _n, GMI, "likelihood.inputs", LIK_IN, stubs=stubs(), select=_sel)
for _pid, _n, _sel in [("C18", "bounds options", options_of("bounds_distance")),
                       ("C09", "clipping defaults", options_of("clipping_lower_bound", "clipping_upper_bound", "clipping_lower_hardness", "clipping_upper_hardness")),
                       ("C05", "scale option", options_of("sigma_points_scale")),
                       ("C13", "names of the transition parameters", info_of("param_names")),
                       ("C15", "anchoring options", keys("anchoring"))]:
    ob(_pid, _n, PM, "model.process", SPEC_IN, stubs=NOCHECK, select=_sel)
ob("C10", "debug values of an update", KU, "kalman.update", dict(UPDATE_IN, debug=tm.TRUE), arrays=True)
ob("C24", "arrays with blanked rows", PD, "data.process", dict(DATA_IN, purpose=const("estimation")), anchor="private")
ob("C24", "warnings", PD, "data.process", dict(DATA_IN, purpose=const("estimation")), effects={"warning"}, select="none", anchor="private")
ob("C26", "tables of the states", SIM, "simulation.simulate", SIM_IN, stubs=SIMSTUBS,
   select=lambda r, post: S.blind(transformed=[], pp_=[], process_data=[], pd_=[])(keys("unanchored_states", "anchored_states")(r, post)))

# ------------------------------------------------------------------ C31, C32, C34: rules over every public entry point
from .rules import Pure, Deterministic, ErrorsSurface  # noqa: E402
_T = dict(model_dict=IN("model_dict", "dict"), model=IN("model_dict", "dict"), data=IN("data", "df"), params=IN("params", "df"), period=IN("period", "int"),
          df=IN("df", "df"), states_df=IN("states_df", "df"), params_df=IN("params_df", "df"), plots_dict=IN("plots_dict", "dict"),
          kde_plots=IN("kde_plots", "dict"), contour_plots=IN("contour_plots", "dict"), surface_plots=IN("surface_plots", "dict"),
          others=IN("others", "list"), factors=IN("factors", "list"), measurements=IN("measurements", "list"), controls=IN("controls", "list"),
          states=IN("states", "df"), factor_order=IN("factor_order", "list"), column_order=IN("column_order", "list"), row_order=IN("row_order", "list"),
          make_subplot_kwargs=IN("make_subplot_kwargs", "dict"), layout_kwargs=IN("layout_kwargs", "dict"), legend_kwargs=IN("legend_kwargs", "dict"),
          title_kwargs=IN("title_kwargs", "dict"), distplot_kwargs=IN("distplot_kwargs", "dict"), contour_kwargs=IN("contour_kwargs", "dict"),
          heatmap_kwargs=IN("heatmap_kwargs", "dict"), factor_mapping=IN("factor_mapping", "dict"), n_obs=NONE, policies=IN("policies", "list"),
          jacobian_type=IN("jacobian_type", "str"), corr=IN("corr", "df"), state_ranges=IN("state_ranges", "dict"), periods=IN("periods", "list"),
          quantiles_of_other_factors=IN("quantiles", "list"), update_info=IN("update_info", "df"), labels=None, dimensions=None, transition_info=None,
          anchoring=IN("anchoring", "dict"), anchoring_info=IN("anchoring", "dict"), normalizations=None, purpose=IN("purpose", "str"))
_PUBLIC = {
    "likelihood_function.get_maximization_inputs": "model_dict data jacobian_type",
    "filtered_states.get_filtered_states": "model_dict data params",
    "filtered_states.anchor_states_df": "states_df model_dict params use_aggregated_anchoring",
    "simulate_data.simulate_dataset": "model_dict params n_obs data policies",
    "utilities.extract_factors": "factors model_dict params", "utilities.update_parameter_values": "params others",
    "utilities.remove_factors": "factors model_dict params", "utilities.remove_measurements": "measurements model_dict params",
    "utilities.remove_controls": "controls model_dict params", "utilities.switch_translog_to_linear": "model_dict params",
    "utilities.switch_linear_to_translog": "model_dict params", "utilities.reduce_n_periods": "model_dict new_n_periods params",
    VT + "combine_transition_plots": _CT, VT + "get_transition_plots": _GT,
    VD + "combine_distribution_plots": _CD, VD + "univariate_densities": _UD, VD + "bivariate_density_contours": _BC, VD + "bivariate_density_surfaces": _BS,
    CH + "plot_correlation_heatmap": None, CH + "get_measurements_corr": "data model_dict factors periods",
    CH + "get_quasi_scores_corr": "data model_dict factors periods", CH + "get_scores_corr": "data params model_dict factors periods",
    "process_model.process_model": "model_dict",
}
_DRAWS = {"simulate_data.simulate_dataset", VT + "get_transition_plots"}
_PQ = {"skillmodels." + q for q in _PUBLIC}


class _Typed(dict):
    """arguments by name, for whatever parameters the function has"""


def _arguments(names):
    return {n: _T.get(n, IN(n, "")) for n in names.split()}


_CALLS = {"loglike": "likelihood value", "gradient": "gradient", "loglike_and_gradient": "value and gradient", "debug_loglike": "debug likelihood"}
for _q, _names in _PUBLIC.items():
    _n = _q.split(".")[1]
    _in = _arguments(_names or "corr heatmap_kwargs layout_kwargs rounding zmax zmin zmid colorscale show_color_bar show_diagonal show_upper_triangle "
                     "trim_heatmap annotate annotation_fontsize annotation_text_color annotation_text_angle axes_tick_fontsize axes_tick_label_angle axes_tick_label_color")
    TABLE.setdefault("C31", []).append(Pure(_n, "skillmodels." + _q, None, _in))
    TABLE.setdefault("C32", []).append(Deterministic(_n, "skillmodels." + _q, _in, draws=_q in _DRAWS))
    TABLE.setdefault("C34", []).append(ErrorsSurface(_n, "skillmodels." + _q, _in, public=_PQ))
    if "factors" in _in and _q.startswith("utilities"):
        TABLE["C31"].append(Pure(_n + ", one name", "skillmodels." + _q, None, dict(_in, factors=IN("factors", "str"))))
    if "states" in _in:
        TABLE["C31"].append(Pure(_n + ", several scenarios", "skillmodels." + _q, None, dict(_in, states=IN("states", "dict"))))
        TABLE["C31"].append(Pure(_n + ", list of scenarios", "skillmodels." + _q, None, dict(_in, states=IN("states", "list"))))
        TABLE["C32"].append(Deterministic(_n + ", several scenarios", "skillmodels." + _q, dict(_in, states=IN("states", "dict"))))
for _n, _d in _CALLS.items():
    _in = {"model_dict": _T["model_dict"], "data": _T["data"], "jacobian_type": _T["jacobian_type"], "params": _T["params"]}
    TABLE["C31"].append(Pure("calls of the " + _d, "spec.harness.call_" + _n, None, _in, where="skillmodels." + GMI))
    TABLE["C32"].append(Deterministic("calls of the " + _d, "spec.harness.call_" + _n, _in, where="skillmodels." + GMI))
    for _pid in ("C32", "C08"):
        TABLE[_pid].append(Deterministic("a second call of the " + _d, "spec.harness.again_" + _n, _in, earlier="params", where="skillmodels." + GMI))
    TABLE["C34"].append(ErrorsSurface("calls of the " + _d, "spec.harness.call_" + _n, _in, public=_PQ, where="skillmodels." + GMI))

for _q, _in in {"constraints.add_bounds": {"params_df": _T["params_df"], "bounds_distance": IN("bounds_distance", "float")},
                "process_data.pre_process_data": {"df": _T["df"], "periods": _T["periods"]},
                "check_model.check_model": dict.fromkeys("model_dict labels dimensions anchoring".split())}.items():
    TABLE["C31"].append(Pure(_q.split(".")[1], "skillmodels." + _q, None, dict(_in), anchor="private"))

# ------------------------------------------------------------------ defaults of optional arguments
from .rules import Defaults  # noqa: E402
_USER = dict.fromkeys(["layout_kwargs"])
for _p, _q, _e in [
    ("C09", "clipping.soft_clipping", dict(lower=None, upper=None, lower_hardness=1, upper_hardness=1)),
    ("C18", "constraints.add_bounds", dict(bounds_distance=0.0)),
    ("C25", "simulate_data.simulate_dataset", dict(n_obs=None, data=None, policies=None)),
    ("C38", CH + "plot_correlation_heatmap", dict(
        _USER, heatmap_kwargs=None, rounding=2, zmax=None, zmin=None, zmid=None, colorscale="RdBu_r", show_color_bar=True, show_diagonal=True,
        show_upper_triangle=True, trim_heatmap=False, annotate=True, annotation_fontsize=13, annotation_text_color="black",
        annotation_text_angle=0, axes_tick_fontsize=(12, 12), axes_tick_label_angle=(90, 0), axes_tick_label_color=("black", "black"))),
    ("C38", VD + "combine_distribution_plots", dict(
        _USER, surface_plots=None, factor_order=None, factor_mapping=None, make_subplot_kwargs=None, sharex=False, sharey=False, line_width=1.5,
        showlegend=False, legend_kwargs=None, title_kwargs=None, eye_x=2.2, eye_y=2.2, eye_z=1)),
    ("C38", VD + "univariate_densities", dict(
        _USER, factors=None, observed_factors=False, states=None, show_curve=True, show_hist=False, show_rug=False, curve_type="kde",
        colorscale="D3", bin_size=1, distplot_kwargs=None)),
    ("C38", VD + "bivariate_density_contours", dict(
        _USER, factors=None, observed_factors=False, states=None, n_points=50, contour_kwargs=None, contours_showlabels=False,
        contours_coloring="none", contours_colorscale="RdBu_r", lines_colorscale="D3", showcolorbar=False)),
    ("C38", VD + "bivariate_density_surfaces", dict(
        _USER, factors=None, observed_factors=False, states=None, n_points=50, colorscale="RdBu_r", opacity=0.9, showcolorbar=False,
        showgrids=True, showaxlines=True, showlabels=True)),
    ("C38", VT + "combine_transition_plots", dict(
        _USER, column_order=None, row_order=None, factor_mapping=None, make_subplot_kwargs=None, sharex=False, sharey=True, showlegend=True,
        legend_kwargs=None, title_kwargs=None)),
    ("C38", VT + "get_transition_plots", dict(
        _USER, state_ranges=None, quantiles_of_other_factors=(0.25, 0.5, 0.75), n_points=50, n_draws=50, colorscale="Magenta_r")),
] + [("C30", "utilities." + _f, dict(params=None)) for _f in (
        "extract_factors", "remove_factors", "remove_measurements", "remove_controls", "switch_translog_to_linear",
        "switch_linear_to_translog", "reduce_n_periods")]:
    TABLE.setdefault(_p, []).append(Defaults(_q, _e))
