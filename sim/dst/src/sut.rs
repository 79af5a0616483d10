//! Driving the code under test: loading models, stepping them and reading what they computed.

use crate::rng::mix;
use crate::world::Ctx;
use pywr_core::models::{Model, ModelDomain, ModelState, MultiNetworkModel};
use pywr_core::models::MultiNetworkModelRunError;
use pywr_core::network::{Network, NetworkTimings, ResolutionMaps};
use pywr_core::node::NodeType;
use pywr_core::recorders::{
    MetricSetState, Recorder, RecorderBuilder, RecorderBuilderError, RecorderFinalResult, RecorderInternalState, RecorderMeta, RecorderSaveError,
};
use pywr_core::scenario::ScenarioIndex;
use pywr_core::solvers::{
    HighsSolver, HighsSolverSettings, HighsSolverSettingsBuilder, MicroLpSolver, MicroLpSolverSettings,
    MicroLpSolverSettingsBuilder, MultiStateSolver, SimdIpmF64Solver, SimdIpmSolverSettings, SimdIpmSolverSettingsBuilder, Solver,
    SolverFeatures, SolverSettings, SolverSetupError, SolverSolveError, SolverTimings,
};
use pywr_core::state::{ConstParameterValues, State};
use pywr_core::timestep::Timestep;
use rayon_core::sim;
use serde_json::Value;
use std::collections::BTreeMap;
use std::path::Path;
use std::str::FromStr;
use std::sync::{Arc, Mutex};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};

// ------------------------------------------------------------------------------- sim solver

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Engine {
    Highs,
    MicroLp,
}

impl Engine {
    pub fn from(s: &str) -> Engine {
        if s == "microlp" { Engine::MicroLp } else { Engine::Highs }
    }
}

/// What to do to the solver of one scenario at one time-step.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Prank {
    /// The solver reports a failure before touching anything.
    FailBefore,
    /// The solver solves, then reports a failure.
    FailAfter,
    /// The solver process is replaced by a fresh one.
    Cold,
    /// An unrelated problem was solved in between (the same one, twice).
    Twice,
}

#[derive(Debug, Default)]
pub struct Plan {
    /// (scenario, time-step index) -> prank
    pub pranks: BTreeMap<(usize, usize), Prank>,
    pub fired: AtomicU64,
    pub solves: AtomicU64,
}

pub struct SimSettings {
    pub engine: Engine,
    pub parallel: bool,
    pub threads: usize,
    pub plan: Arc<Plan>,
    pub next: AtomicUsize,
    pub ignore: bool,
}

impl SimSettings {
    pub fn new(engine: Engine, parallel: bool, threads: usize, plan: Arc<Plan>) -> SimSettings {
        SimSettings { engine, parallel, threads, plan, next: AtomicUsize::new(0), ignore: false }
    }
}

impl SolverSettings for SimSettings {
    fn parallel(&self) -> bool {
        self.parallel
    }
    fn threads(&self) -> usize {
        self.threads
    }
    fn ignore_feature_requirements(&self) -> bool {
        self.ignore
    }
}

enum Inner {
    Highs(Box<HighsSolver>),
    MicroLp(Box<MicroLpSolver>),
}

static SOLVING: AtomicU64 = AtomicU64::new(0);
static SOLVES: AtomicU64 = AtomicU64::new(0);

struct Solving;
impl Solving {
    fn new() -> Solving {
        SOLVING.fetch_add(1, SeqCst);
        SOLVES.fetch_add(1, SeqCst);
        Solving
    }
}
impl Drop for Solving {
    fn drop(&mut self) {
        SOLVES.fetch_add(1, SeqCst);
        SOLVING.fetch_sub(1, SeqCst);
    }
}

/// HiGHS can run forever on a few problems, which says nothing about the code under test.
pub fn watch_solvers() {
    std::thread::spawn(|| {
        let (mut last, mut still) = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let n = SOLVES.load(SeqCst);
            still = if n == last && SOLVING.load(SeqCst) > 0 { still + 1 } else { 0 };
            last = n;
            if still >= 25 {
                eprintln!("{STUCK}");
                unsafe { libc::_exit(97) };
            }
        }
    });
}
pub const STUCK: &str = "DST-SOLVER-STUCK";

/// The HiGHS library reads outside its memory in the presolve of a few mixed-integer problems, and sometimes dies of it.
pub fn watch_highs() {
    unsafe extern "C" {
        #[link_name = "_ZN5Highs3runEv"]
        fn highs_run();
    }
    extern "C" fn died(sig: libc::c_int) {
        unsafe {
            // Never more than this one attempt.
            libc::signal(sig, libc::SIG_DFL);
            libc::alarm(20);
            // The heap may be damaged: no allocation here. Return addresses within `Highs::run`
            // tell that the fault was met inside the library.
            let mut at = [std::ptr::null_mut::<libc::c_void>(); 200];
            let n = libc::backtrace(at.as_mut_ptr(), 200).max(0) as usize;
            let run = highs_run as *const () as usize;
            if at[..n].iter().any(|a| (run..run + 0x277).contains(&(*a as usize))) {
                libc::write(2, DIED.as_ptr() as *const libc::c_void, DIED.len());
                libc::_exit(97);
            }
            libc::raise(sig);
        }
    }
    unsafe {
        // Loads what the walk needs, while all is well.
        let mut at = [std::ptr::null_mut::<libc::c_void>(); 4];
        libc::backtrace(at.as_mut_ptr(), 4);
    }
    unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = died as *const () as usize;
        a.sa_flags = libc::SA_NODEFER;
        libc::sigaction(libc::SIGSEGV, &a, std::ptr::null_mut());
        libc::sigaction(libc::SIGBUS, &a, std::ptr::null_mut());
        libc::sigaction(libc::SIGABRT, &a, std::ptr::null_mut());
    }
}
pub const DIED: &str = "DST-HIGHS-DIED\n";

/// The real solvers, with scheduling points around each solve and failures on request.
pub struct SimSolver {
    inner: Inner,
    scenario: usize,
    engine: Engine,
    plan: Arc<Plan>,
}

fn make(engine: Engine, model: &Network, values: &ConstParameterValues) -> Result<Inner, SolverSetupError> {
    Ok(match engine {
        Engine::Highs => Inner::Highs(HighsSolver::setup(model, values, &HighsSolverSettings::default())?),
        Engine::MicroLp => Inner::MicroLp(MicroLpSolver::setup(model, values, &MicroLpSolverSettings::default())?),
    })
}

impl Solver for SimSolver {
    type Settings = SimSettings;

    fn name() -> &'static str {
        "sim"
    }

    fn features() -> &'static [SolverFeatures] {
        HighsSolver::features()
    }

    fn setup(model: &Network, values: &ConstParameterValues, s: &SimSettings) -> Result<Box<Self>, SolverSetupError> {
        let scenario = s.next.fetch_add(1, SeqCst);
        Ok(Box::new(SimSolver { inner: make(s.engine, model, values)?, scenario, engine: s.engine, plan: s.plan.clone() }))
    }

    fn solve(&mut self, model: &Network, timestep: &Timestep, state: &mut State) -> Result<SolverTimings, SolverSolveError> {
        sim::yield_point(sim::Kind::User);
        self.plan.solves.fetch_add(1, SeqCst);
        let p = self.plan.pranks.get(&(self.scenario, timestep.index)).copied();
        if p.is_some() {
            self.plan.fired.fetch_add(1, SeqCst);
        }
        if p == Some(Prank::FailBefore) {
            return Err(SolverSolveError::MissingSolverFeatures);
        }
        if p == Some(Prank::Cold) {
            let values = state.get_const_parameter_values();
            self.inner = make(self.engine, model, &values).map_err(|_| SolverSolveError::MissingSolverFeatures)?;
        }
        let mut go = |state: &mut State| {
            let _w = Solving::new();
            match &mut self.inner {
                Inner::Highs(s) => s.solve(model, timestep, state),
                Inner::MicroLp(s) => s.solve(model, timestep, state),
            }
        };
        let mut r = if p == Some(Prank::Twice) {
            // A copy of the state takes the first answer.
            let mut other = state.clone();
            let _ = go(&mut other);
            go(state)
        } else {
            go(state)
        };
        if p == Some(Prank::FailAfter) {
            r = Err(SolverSolveError::MissingSolverFeatures);
        }
        sim::yield_point(sim::Kind::User);
        r
    }
}

/// The batched (several scenarios per solve) solver, with scheduling points around each solve and
/// failures on request: `(0, time-step)` in the plan.
pub struct SimMulti {
    inner: Box<SimdIpmF64Solver>,
    scenarios: usize,
    plan: Arc<Plan>,
}

impl MultiStateSolver for SimMulti {
    type Settings = SimSettings;

    fn name() -> &'static str {
        "sim-multi"
    }

    fn features() -> &'static [SolverFeatures] {
        SimdIpmF64Solver::features()
    }

    fn setup(model: &Network, n: usize, s: &SimSettings) -> Result<Box<Self>, SolverSetupError> {
        let inner = SimdIpmF64Solver::setup(model, n, &ipm(s.threads))?;
        Ok(Box::new(SimMulti { inner, scenarios: n, plan: s.plan.clone() }))
    }

    fn solve(&mut self, model: &Network, timestep: &Timestep, states: &mut [State]) -> Result<SolverTimings, SolverSolveError> {
        sim::yield_point(sim::Kind::User);
        self.plan.solves.fetch_add(1, SeqCst);
        let p = self.plan.pranks.get(&(0, timestep.index)).copied();
        if p.is_some() {
            self.plan.fired.fetch_add(1, SeqCst);
        }
        match p {
            Some(Prank::FailBefore) => return Err(SolverSolveError::MissingSolverFeatures),
            Some(Prank::Cold) => {
                self.inner = SimdIpmF64Solver::setup(model, self.scenarios, &ipm(0)).map_err(|_| SolverSolveError::MissingSolverFeatures)?;
            }
            Some(Prank::Twice) => {
                let mut other: Vec<State> = states.to_vec();
                let _ = self.inner.solve(model, timestep, &mut other);
            }
            _ => {}
        }
        let mut r = self.inner.solve(model, timestep, states);
        if p == Some(Prank::FailAfter) {
            r = Err(SolverSolveError::MissingSolverFeatures);
        }
        sim::yield_point(sim::Kind::User);
        r
    }
}

// ---------------------------------------------------------------------------------- loading

pub enum Built {
    Single(Model),
    Multi(MultiNetworkModel),
}

pub fn err_chain(e: &dyn std::error::Error) -> String {
    let mut s = e.to_string();
    let mut c = e.source();
    while let Some(x) = c {
        let t = x.to_string();
        if !s.contains(&t) {
            s += ": ";
            s += &t;
        }
        c = x.source();
    }
    s
}

pub fn load(model: &Value, data: &str, out: &str) -> Result<Built, String> {
    let text = model.to_string();
    load_text(&text, model.get("networks").is_some(), data, out)
}

pub fn load_text(text: &str, multi: bool, data: &str, out: &str) -> Result<Built, String> {
    if multi {
        let s = pywr_schema::MultiNetworkModelSchema::from_str(text).map_err(|e| format!("schema: {e}"))?;
        let b = s.create_model_builder(Some(Path::new(data)), Some(Path::new(out))).map_err(|e| format!("build: {}", err_chain(&e)))?;
        Ok(Built::Multi(b.build().map_err(|e| format!("build: {}", err_chain(&e)))?))
    } else {
        let s = pywr_schema::ModelSchema::from_str(text).map_err(|e| format!("schema: {e}"))?;
        let b = s.create_model_builder(Some(Path::new(data)), Some(Path::new(out))).map_err(|e| format!("build: {}", err_chain(&e)))?;
        Ok(Built::Single(b.build().map_err(|e| format!("build: {}", err_chain(&e)))?))
    }
}

pub fn load_single(model: &Value, data: &str, out: &str) -> Result<Model, String> {
    match load(model, data, out)? {
        Built::Single(m) => Ok(m),
        Built::Multi(_) => Err("multi".into()),
    }
}

// -------------------------------------------------------------------------------- observing

#[derive(Clone, Debug, PartialEq, Default)]
pub struct ScenInfo {
    pub id: usize,
    pub labels: Vec<String>,
    pub label: String,
    pub schema: Vec<usize>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Layout {
    pub scen: Vec<ScenInfo>,
    /// (date, minutes, days)
    pub steps: Vec<(String, i64, f64)>,
    /// from, from sub, to, to sub
    pub edges: Vec<[String; 4]>,
    /// name, sub, kind
    pub nodes: Vec<(String, String, char)>,
    pub vs: Vec<(String, String)>,
    pub obs: Vec<(String, String)>,
    /// The other metric sets: name, and names and attributes of its metrics.
    pub sets: Vec<(String, Vec<(String, String)>)>,
}

impl Layout {
    pub fn of(m: &Model) -> Layout {
        Layout::parts(m.domain(), m.network())
    }

    pub fn parts(dom: &ModelDomain, net: &Network) -> Layout {
        let nm = |i: &pywr_core::NodeIndex| {
            let n = net.get_node(i).unwrap();
            [n.name().to_string(), n.sub_name().unwrap_or("").to_string()]
        };
        let ng = dom.scenarios().groups().len();
        Layout {
            scen: dom
                .scenarios()
                .indices()
                .iter()
                .map(|s| ScenInfo {
                    id: s.simulation_id(),
                    labels: s.labels().to_vec(),
                    label: s.label(),
                    schema: (0..ng).map(|g| s.schema_index_for_group(g)).collect(),
                })
                .collect(),
            steps: dom
                .time()
                .timesteps()
                .iter()
                .map(|t| (t.date.to_string(), t.duration.milliseconds() / 60000, t.days()))
                .collect(),
            edges: net
                .edges()
                .iter()
                .map(|e| {
                    let [a, b] = nm(&e.from_node_index());
                    let [c, d] = nm(&e.to_node_index());
                    [a, b, c, d]
                })
                .collect(),
            nodes: net
                .nodes()
                .iter()
                .map(|n| {
                    let k = match n.node_type() {
                        NodeType::Input => 'i',
                        NodeType::Output => 'o',
                        NodeType::Link => 'l',
                        NodeType::Storage => 's',
                    };
                    (n.name().to_string(), n.sub_name().unwrap_or("").to_string(), k)
                })
                .collect(),
            vs: net.virtual_storage_nodes().iter().map(|v| (v.name().to_string(), v.sub_name().unwrap_or("").to_string())).collect(),
            obs: match net.get_metric_set_by_name("obs") {
                Ok(ms) => ms.iter_metrics().map(|m| (m.name().to_string(), m.attribute().to_string())).collect(),
                Err(_) => vec![],
            },
            sets: named_sets(net)
                .iter()
                .map(|s| (s.name().to_string(), s.iter_metrics().map(|m| (m.name().to_string(), m.attribute().to_string())).collect()))
                .collect(),
        }
    }
}

/// Everything read from one scenario after one time-step.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Row {
    pub edge: Vec<f64>,
    /// In flow, out flow of every node.
    pub flow: Vec<(f64, f64)>,
    /// Volume, proportional volume of storage nodes.
    pub vol: Vec<(f64, f64)>,
    pub vs: Vec<(f64, f64)>,
    pub obs: Vec<f64>,
    /// Values of the other metric sets.
    pub sets: Vec<Vec<f64>>,
}

impl Row {
    pub fn same(&self, o: &Row) -> bool {
        let b = |x: f64, y: f64| x.to_bits() == y.to_bits() || (x == 0.0 && y == 0.0) || (x.is_nan() && y.is_nan());
        let p = |a: &Vec<(f64, f64)>, c: &Vec<(f64, f64)>| a.len() == c.len() && a.iter().zip(c).all(|(x, y)| b(x.0, y.0) && b(x.1, y.1));
        let v = |a: &Vec<f64>, c: &Vec<f64>| a.len() == c.len() && a.iter().zip(c).all(|(x, y)| b(*x, *y));
        v(&self.edge, &o.edge) && p(&self.flow, &o.flow) && p(&self.vol, &o.vol) && p(&self.vs, &o.vs) && v(&self.obs, &o.obs)
            && self.sets.len() == o.sets.len()
            && self.sets.iter().zip(&o.sets).all(|(x, y)| v(x, y))
    }

    pub fn hash(&self) -> u64 {
        let mut h = 0u64;
        let mut add = |x: f64| h = mix(h ^ if x == 0.0 { 0 } else { x.to_bits() });
        self.edge.iter().for_each(|x| add(*x));
        self.vol.iter().chain(&self.vs).for_each(|x| {
            add(x.0);
            add(x.1)
        });
        self.obs.iter().for_each(|x| add(*x));
        h
    }

    pub fn diff(&self, o: &Row, l: &Layout) -> String {
        let mut out = vec![];
        let b = |x: f64, y: f64| x.to_bits() == y.to_bits() || x == y;
        for (i, (x, y)) in self.edge.iter().zip(&o.edge).enumerate() {
            if !b(*x, *y) {
                out.push(format!("flow {:?}: {x:?} / {y:?}", l.edges.get(i)));
            }
        }
        for (i, (x, y)) in self.vol.iter().zip(&o.vol).enumerate() {
            if !b(x.0, y.0) {
                out.push(format!("volume of storage #{i}: {:?} / {:?}", x.0, y.0));
            }
        }
        for (i, (x, y)) in self.vs.iter().zip(&o.vs).enumerate() {
            if !b(x.0, y.0) {
                out.push(format!("virtual storage {:?}: {:?} / {:?}", l.vs.get(i), x.0, y.0));
            }
        }
        for (i, (x, y)) in self.obs.iter().zip(&o.obs).enumerate() {
            if !b(*x, *y) {
                out.push(format!("{:?}: {x:?} / {y:?}", l.obs.get(i)));
            }
        }
        if out.is_empty() {
            out.push("shape or node flows differ".into());
        }
        out.truncate(4);
        out.join("; ")
    }
}

/// The metric sets the generator adds besides "obs".
fn named_sets(net: &Network) -> Vec<&pywr_core::recorders::MetricSet> {
    ["set0", "set1", "set2", "set3"].iter().filter_map(|n| net.get_metric_set_by_name(n).ok()).collect()
}

pub fn read_row(net: &Network, st: &State) -> Row {
    let ns = st.get_network_state();
    let nan = f64::NAN;
    let ms = net.get_metric_set_by_name("obs").ok();
    Row {
        edge: net.edges().iter().map(|e| ns.get_edge_flow(&e.index()).unwrap_or(nan)).collect(),
        flow: net
            .nodes()
            .iter()
            .map(|n| (ns.get_node_in_flow(&n.index()).unwrap_or(nan), ns.get_node_out_flow(&n.index()).unwrap_or(nan)))
            .collect(),
        vol: net
            .nodes()
            .iter()
            .filter(|n| n.node_type() == NodeType::Storage)
            .map(|n| {
                (ns.get_node_volume(&n.index()).unwrap_or(nan), ns.get_node_proportional_volume(&n.index()).unwrap_or(nan))
            })
            .collect(),
        vs: net
            .virtual_storage_nodes()
            .iter()
            .map(|v| {
                (
                    ns.get_virtual_storage_volume(&v.index()).unwrap_or(nan),
                    ns.get_virtual_storage_proportional_volume(&v.index()).unwrap_or(nan),
                )
            })
            .collect(),
        obs: ms.map(|ms| ms.iter_metrics().map(|m| m.get_value(net, st).unwrap_or(nan)).collect()).unwrap_or_default(),
        sets: named_sets(net)
            .iter()
            .map(|s| s.iter_metrics().map(|m| m.get_value(net, st).unwrap_or(nan)).collect())
            .collect(),
    }
}

pub fn read_step<S>(m: &Model, state: &ModelState<S>) -> Vec<Row> {
    m.domain().scenarios().indices().iter().map(|s| read_row(m.network(), state.network_state().state(s))).collect()
}

/// How a run is driven.
#[derive(Clone, Debug, PartialEq)]
pub struct How {
    /// 0: sequential; otherwise worker threads.
    pub threads: usize,
}

#[derive(Clone, Debug, Default)]
pub struct Run {
    pub layout: Layout,
    /// time-step -> scenario -> values
    pub rows: Vec<Vec<Row>>,
    /// Set-up error, or (time-step, error).
    pub setup_err: Option<String>,
    pub err: Option<(usize, String)>,
    /// The time-step the error itself names.
    pub err_step: Option<usize>,
    /// Stepping once more after the end.
    pub after_end: Option<String>,
    pub finalised: Option<Result<(), String>>,
}

impl Run {
    pub fn hash(&self) -> u64 {
        self.rows.iter().flatten().fold(7, |h, r| mix(h ^ r.hash()))
    }
    pub fn ok(&self) -> bool {
        self.setup_err.is_none() && self.err.is_none()
    }
}

/// The time-step named by an error.
pub fn step_named(e: &pywr_core::models::ModelStepError) -> Option<usize> {
    use pywr_core::models::ModelStepError as E;
    match e {
        E::NetworkStepError { timestep, .. } | E::RecorderSaveError { timestep, .. } => Some(timestep.index),
        _ => None,
    }
}

/// Steps a model from start to end, recording everything after each step.
pub fn observe<S>(m: &Model, settings: &S::Settings, threads: usize) -> Run
where
    S: Solver,
    S::Settings: SolverSettings,
{
    let mut run = Run { layout: Layout::of(m), ..Default::default() };
    let mut state = match m.setup::<S>(settings) {
        Ok(s) => s,
        Err(e) => {
            run.setup_err = Some(err_chain(&e));
            return run;
        }
    };
    let pool = if threads > 0 { Some(rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap()) } else { None };
    let mut t = NetworkTimings::new_with_component_timings(m.network());
    let n = m.domain().time().timesteps().len();
    for k in 0..n {
        match m.step::<S>(&mut state, pool.as_ref(), &mut t) {
            Ok(()) => run.rows.push(read_step(m, &state)),
            Err(e) => {
                run.err = Some((k, err_chain(&e)));
                run.err_step = step_named(&e);
                return run;
            }
        }
    }
    if let Err(e) = m.step::<S>(&mut state, pool.as_ref(), &mut t) {
        run.after_end = Some(err_chain(&e));
    }
    let mt = pywr_core::models::ModelTimings::new_with_component_timings(m.network());
    run.finalised = Some(m.finalise::<S>(state, mt).map(|_| ()).map_err(|e| err_chain(&e)));
    run
}

/// The same in a world, with the sim solver.
pub fn observe_sim(ctx: &mut Ctx, m: &Model, engine: Engine, threads: usize, plan: Arc<Plan>) -> Result<Run, String> {
    let s = SimSettings::new(engine, threads > 0, threads, plan);
    ctx.sim(|| observe::<SimSolver>(m, &s, threads))
}

pub fn highs(parallel: usize) -> HighsSolverSettings {
    let b = HighsSolverSettingsBuilder::default();
    if parallel > 0 { b.parallel().threads(parallel).build() } else { b.build() }
}

pub fn microlp(parallel: usize) -> MicroLpSolverSettings {
    let b = MicroLpSolverSettingsBuilder::default();
    if parallel > 0 { b.parallel().threads(parallel).build() } else { b.build() }
}

// ----------------------------------------------------------------------- multi-network models

/// A recorder that reads everything after each network's step.
#[derive(Debug, Clone)]
struct Spy {
    meta: RecorderMeta,
    net: usize,
    log: SpyLog,
}
type SpyLog = Arc<Mutex<Vec<(usize, usize, Vec<Row>)>>>;

impl Recorder for Spy {
    fn meta(&self) -> &RecorderMeta {
        &self.meta
    }
    fn save(
        &self, t: &Timestep, scen: &[ScenarioIndex], net: &Network, state: &[State], _: &[Vec<MetricSetState>],
        _: &mut Option<Box<dyn RecorderInternalState>>,
    ) -> Result<(), RecorderSaveError> {
        let rows = scen.iter().map(|s| read_row(net, &state[s.simulation_id()])).collect();
        self.log.lock().unwrap().push((self.net, t.index, rows));
        Ok(())
    }
}
impl RecorderBuilder for Spy {
    fn name(&self) -> &str {
        &self.meta.name
    }
    fn build(self: Box<Self>, _: &ResolutionMaps) -> Result<Box<dyn Recorder>, RecorderBuilderError> {
        Ok(self)
    }
}

/// A multi-network model with its observer.
pub struct Spied {
    pub model: MultiNetworkModel,
    log: SpyLog,
    names: Vec<String>,
}

pub fn load_spied(model: &Value, data: &str, out: &str) -> Result<Spied, String> {
    let s = pywr_schema::MultiNetworkModelSchema::from_str(&model.to_string()).map_err(|e| format!("schema: {e}"))?;
    let mut b = s.create_model_builder(Some(Path::new(data)), Some(Path::new(out))).map_err(|e| format!("build: {}", err_chain(&e)))?;
    let log: SpyLog = Arc::new(Mutex::new(vec![]));
    let names: Vec<String> = model["networks"].as_array().into_iter().flatten().map(|n| n["name"].as_str().unwrap_or("").to_string()).collect();
    for (net, n) in names.iter().enumerate() {
        let meta = RecorderMeta { name: "dst-spy".into(), comment: String::new() };
        let e = b.entry_builder(n).ok_or("network is missing")?;
        e.network_builder().recorder(Box::new(Spy { meta, net, log: log.clone() }));
    }
    Ok(Spied { model: b.build().map_err(|e| format!("build: {}", err_chain(&e)))?, log, names })
}

#[derive(Clone, Debug, Default)]
pub struct MultiRun {
    /// One per network.
    pub runs: Vec<Run>,
    pub err: Option<String>,
    /// Network and time-step named by the error.
    pub err_at: Option<(String, usize)>,
    pub setup: bool,
    pub memory: BTreeMap<(String, String), MemOut>,
}

/// Runs a multi-network model with the library's own loop, observing every network's steps.
pub fn run_spied<T>(ctx: &mut Ctx, m: &Spied, model: &Value, run: T) -> Result<MultiRun, String>
where
    T: FnOnce(&MultiNetworkModel) -> Result<pywr_core::models::MultiNetworkModelResult, MultiNetworkModelRunError> + Send,
{
    m.log.lock().unwrap().clear();
    let mut out = MultiRun::default();
    let mut w = Whole::default();
    match ctx.sim(|| run(&m.model))? {
        Ok(r) => {
            for n in model["networks"].as_array().unwrap_or(&vec![]) {
                let name = n["name"].as_str().unwrap_or("");
                if let Some(res) = r.network_results.get(name) {
                    collect(name, &memory_names(&n["network"]), res, &mut w);
                }
            }
        }
        Err(e) => {
            out.setup = matches!(e, MultiNetworkModelRunError::SetupError(_));
            if let MultiNetworkModelRunError::StepError(s) = &e {
                // The type is not exported: its debug form is read.
                let d = format!("{s:?}");
                let cut = |d: &str, a: &str, b: char| -> Option<String> {
                    let i = d.find(a)? + a.len();
                    Some(d[i..].split(b).next()?.to_string())
                };
                if d.starts_with("NetworkStepError") || d.starts_with("RecorderSaveError") {
                    let net = cut(&d, "network: \"", '"');
                    let at = d.find("timestep: Timestep").and_then(|i| cut(&d[i..], "index: ", ',')).and_then(|x| x.trim_end_matches(" }").trim().parse().ok());
                    out.err_at = net.zip(at);
                }
            }
            out.err = Some(err_chain(&e));
        }
    }
    out.memory = w.memory;
    for k in 0..m.names.len() {
        let net = m.model.network(k).ok_or("network is missing")?;
        out.runs.push(Run { layout: Layout::parts(m.model.domain(), net), ..Default::default() });
    }
    for (k, t, rows) in m.log.lock().unwrap().drain(..) {
        if out.runs[k].rows.len() != t {
            return Err(format!("network {k} was stepped {} times before time-step {t}", out.runs[k].rows.len()));
        }
        out.runs[k].rows.push(rows);
    }
    if let (Some((n, t)), Some(e)) = (&out.err_at, &out.err) {
        if let Some(k) = m.names.iter().position(|x| x == n) {
            out.runs[k].err = Some((*t, e.clone()));
        }
    }
    Ok(out)
}

// -------------------------------------------------------------------------------- whole runs

/// Results of a run driven by the library itself.
#[derive(Clone, Debug, Default)]
pub struct Whole {
    pub err: Option<String>,
    pub err_step: Option<usize>,
    /// (network, output) -> (aggregated value or error, rows of the data frame)
    pub memory: BTreeMap<(String, String), MemOut>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct MemOut {
    pub agg: Option<Result<f64, String>>,
    pub frame: Frame,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Frame {
    pub cols: Vec<String>,
    /// Cells as text; floats in shortest round-trip form.
    pub rows: Vec<Vec<String>>,
    pub err: Option<String>,
}

pub fn frame_of(r: &dyn RecorderFinalResult) -> Frame {
    let df = match r.to_dataframe() {
        Ok(d) => d,
        Err(e) => return Frame { err: Some(format!("{e}")), ..Default::default() },
    };
    let cols: Vec<String> = df.get_column_names().iter().map(|s| s.to_string()).collect();
    let mut rows = vec![];
    for i in 0..df.height() {
        let mut row = vec![];
        for c in &cols {
            let v = df.column(c).ok().and_then(|c| c.get(i).ok().map(|v| cell(v)));
            row.push(v.unwrap_or_default());
        }
        rows.push(row);
    }
    Frame { cols, rows, err: None }
}

fn cell(v: polars::prelude::AnyValue<'_>) -> String {
    use polars::prelude::AnyValue as A;
    match v {
        A::Float64(x) => format!("{x:?}"),
        A::String(s) => s.to_string(),
        A::StringOwned(s) => s.to_string(),
        other => {
            let t = format!("{other}");
            t.trim_matches('"').to_string()
        }
    }
}

fn collect(net: &str, names: &[String], r: &pywr_core::network::NetworkResult, out: &mut Whole) {
    for n in names {
        if let Some(res) = r.get(n) {
            let agg = Some(res.aggregated_value().map_err(|e| format!("{e}")));
            out.memory.insert((net.to_string(), n.clone()), MemOut { agg, frame: frame_of(res) });
        }
    }
}

/// The results of a finished run of one network.
pub fn memory_of(names: &[String], r: &pywr_core::network::NetworkResult) -> BTreeMap<(String, String), MemOut> {
    let mut w = Whole::default();
    collect("", names, r, &mut w);
    w.memory
}

/// Names of the outputs with results.
pub fn memory_names(net: &Value) -> Vec<String> {
    net["outputs"]
        .as_array()
        .map(|a| a.iter().filter(|o| o["type"] == "Memory").map(|o| o["name"].as_str().unwrap_or("").to_string()).collect())
        .unwrap_or_default()
}

/// `Model::run` (or the multi-network one) with the given solver settings.  Results are read
/// outside the scheduled section.
pub fn whole<S>(ctx: &mut Ctx, b: &Built, model: &Value, settings: &S::Settings) -> Result<Whole, String>
where
    S: Solver,
    S::Settings: SolverSettings + Sync,
{
    let mut w = Whole::default();
    match b {
        Built::Single(m) => match ctx.sim(|| m.run::<S>(settings))? {
            Ok(r) => collect("", &memory_names(&model["network"]), &r.network_result, &mut w),
            Err(e) => {
                if let pywr_core::models::ModelRunError::StepError(s) = &e {
                    w.err_step = step_named(s);
                }
                w.err = Some(err_chain(&e))
            }
        },
        Built::Multi(m) => match ctx.sim(|| m.run::<S>(settings))? {
            Ok(r) => {
                for n in model["networks"].as_array().unwrap_or(&vec![]) {
                    let name = n["name"].as_str().unwrap_or("");
                    if let Some(res) = r.network_results.get(name) {
                        collect(name, &memory_names(&n["network"]), res, &mut w);
                    }
                }
            }
            Err(e) => w.err = Some(err_chain(&e)),
        },
    }
    Ok(w)
}

pub fn ipm(parallel: usize) -> SimdIpmSolverSettings {
    let b = SimdIpmSolverSettingsBuilder::default();
    if parallel > 0 { b.parallel().threads(parallel).build() } else { b.build() }
}

pub fn whole_ipm(ctx: &mut Ctx, b: &Built, model: &Value, settings: &SimdIpmSolverSettings) -> Result<Whole, String> {
    let mut w = Whole::default();
    match b {
        Built::Single(m) => match ctx.sim(|| m.run_multi_scenario::<SimdIpmF64Solver>(settings))? {
            Ok(r) => collect("", &memory_names(&model["network"]), &r.network_result, &mut w),
            Err(e) => {
                if let pywr_core::models::ModelRunError::StepError(s) = &e {
                    w.err_step = step_named(s);
                }
                w.err = Some(err_chain(&e))
            }
        },
        Built::Multi(m) => match ctx.sim(|| m.run_multi_scenario::<SimdIpmF64Solver>(settings))? {
            Ok(r) => {
                for n in model["networks"].as_array().unwrap_or(&vec![]) {
                    let name = n["name"].as_str().unwrap_or("");
                    if let Some(res) = r.network_results.get(name) {
                        collect(name, &memory_names(&n["network"]), res, &mut w);
                    }
                }
            }
            Err(e) => w.err = Some(err_chain(&e)),
        },
    }
    Ok(w)
}

/// Steps a multi-scenario (batched) solver by hand.
pub fn observe_multi<S>(m: &Model, settings: &S::Settings, threads: usize) -> Run
where
    S: MultiStateSolver,
    S::Settings: SolverSettings,
{
    let mut run = Run { layout: Layout::of(m), ..Default::default() };
    let mut state = match m.setup_multi_scenario::<S>(settings) {
        Ok(s) => s,
        Err(e) => {
            run.setup_err = Some(err_chain(&e));
            return run;
        }
    };
    let pool = rayon::ThreadPoolBuilder::new().num_threads(threads.max(1)).build().unwrap();
    let mut t = NetworkTimings::new_with_component_timings(m.network());
    let n = m.domain().time().timesteps().len();
    for k in 0..n {
        match m.step_multi_scenario::<S>(&mut state, &pool, &mut t) {
            Ok(()) => run.rows.push(read_step(m, &state)),
            Err(e) => {
                run.err = Some((k, err_chain(&e)));
                run.err_step = step_named(&e);
                return run;
            }
        }
    }
    if let Err(e) = m.step_multi_scenario::<S>(&mut state, &pool, &mut t) {
        run.after_end = Some(err_chain(&e));
    }
    let mt = pywr_core::models::ModelTimings::new_with_component_timings(m.network());
    run.finalised = Some(m.finalise_multi_scenario::<S>(state, mt).map(|_| ()).map_err(|e| err_chain(&e)));
    run
}
