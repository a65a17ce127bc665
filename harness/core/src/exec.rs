//! Runs a history against the model and the real library in lockstep and compares everything
//! observable after every step.
use crate::hist::*;
use crate::model::*;
use crate::real::*;
use crate::schema::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum VK {
  /// contents differ from the model after a commit, switch, merge or deserialization
  State,
  /// a graph changed although the step was not about it
  Isolation,
  /// a graph changed although nothing was committed
  Inert,
  /// a rejected transaction changed the graph
  Rejected,
  UnexpPanic,
  MissPanic,
  /// closures: number, order or what they saw
  Obs,
  /// an index was empty or handed out before
  Fresh,
  View,
  TypedView,
  Drop,
  CheckLog,
  Symmetry,
  TransEmpty,
  Integrity,
}

#[derive(Clone, Debug)]
pub struct Violation {
  pub kind: VK,
  pub reason: Option<Reason>,
  pub step: usize,
  pub msg: String,
  /// some differing field takes part in a bidirectional declaration
  pub bidi_field: bool,
  /// contents of the graph before the failing commit
  pub pre: Option<Nodes>,
  pub info: Option<Box<CommitInfo>>,
  /// what the real graph held, if that is what differs
  pub got: Option<Nodes>,
  /// what the other monitors reported about the same step
  pub also: Vec<Violation>,
}
impl Violation {
  pub fn new(kind: VK, reason: Option<Reason>, step: usize, msg: String) -> Violation {
    Violation { kind, reason, step, msg, bidi_field: false, pre: None, info: None, got: None, also: vec![] }
  }
  /// every deviation of the step
  pub fn each(&self) -> impl Iterator<Item = &Violation> {
    std::iter::once(self).chain(self.also.iter())
  }
}

/// where a run is, for the watchdog: its own thread's history index and step
#[derive(Default)]
pub struct Progress {
  pub index: std::sync::atomic::AtomicU64,
  pub step: std::sync::atomic::AtomicU64,
  /// survives a crash of the process
  pub file: Option<std::fs::File>,
}
impl Progress {
  pub fn at(&self, step: u64) {
    use std::os::unix::fs::FileExt;
    use std::sync::atomic::Ordering::SeqCst;
    self.step.store(step, SeqCst);
    if let Some(f) = &self.file {
      let mut b = [0u8; 16];
      b[..8].copy_from_slice(&self.index.load(SeqCst).to_le_bytes());
      b[8..].copy_from_slice(&step.to_le_bytes());
      let _ = f.write_all_at(&b, 0);
    }
  }
}

#[derive(Clone, Default)]
pub struct Opts {
  pub progress: Option<Arc<Progress>>,
  pub plain_macros: bool,
  pub plain_commits: bool,
  /// record a digest of everything that must be deterministic
  pub digest: bool,
  pub views: bool,
  /// lets other threads run between the steps
  pub jitter: u64,
}

#[derive(Default, Clone)]
pub struct Stats {
  pub n: BTreeMap<&'static str, u64>,
  pub states: HashSet<u64>,
}
impl Stats {
  pub fn add(&mut self, k: &'static str, d: u64) {
    *self.n.entry(k).or_insert(0) += d;
  }
  pub fn top(&mut self, k: &'static str, d: usize) {
    let e = self.n.entry(k).or_insert(0);
    *e = (*e).max(d as u64);
  }
  pub fn merge(&mut self, o: Stats) {
    for (k, v) in o.n {
      if k.starts_with("max ") {
        let e = self.n.entry(k).or_insert(0);
        *e = (*e).max(v);
      } else {
        *self.n.entry(k).or_insert(0) += v;
      }
    }
    if self.states.len() < 3_000_000 {
      self.states.extend(o.states);
    }
  }
}

pub enum End {
  Held,
  /// the history is not one the documentation decides (only for shrunk or edited histories)
  Invalid(&'static str),
  Broken(Violation),
}
pub struct RunOut {
  pub end: End,
  pub sem: u64,
  pub full: u64,
  /// indexes that the first context handed out (only with jitter)
  pub indexes: Vec<Id>,
  /// the history involves checks that only exist with the debug feature
  pub needs_debug: bool,
}

struct Exec<'a> {
  w: World,
  real: Box<dyn Real>,
  s: Arc<Schema>,
  r: HashMap<Id, Id>,
  back: Vec<HashMap<Id, Id>>,
  st: &'a mut Stats,
  o: &'a Opts,
  step: usize,
  panicked: bool,
  /// deviations of the current step
  pend: Vec<Violation>,
  sem: std::collections::hash_map::DefaultHasher,
  full: std::collections::hash_map::DefaultHasher,
}

enum Fail {
  Inv(&'static str),
  V(Box<Violation>),
}
type Res<T> = Result<T, Fail>;

/// Runs the histories one after the other in a thread of their own, so that nothing an earlier
/// execution may have left behind in its thread plays a part. How the last one ended.
pub fn run_apart(hs: &[(&History, fn() -> Box<dyn Real>)], o: &Opts) -> Option<End> {
  let hs: Vec<(History, fn() -> Box<dyn Real>)> = hs.iter().map(|(h, mk)| ((*h).clone(), *mk)).collect();
  let o = Opts { progress: None, ..o.clone() };
  let (tx, rx) = std::sync::mpsc::channel();
  let t = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
    let mut end = None;
    for (h, mk) in &hs {
      end = Some(run(h, mk(), &mut Stats::default(), &o).end);
    }
    let _ = tx.send(end);
  });
  t.ok()?;
  rx.recv_timeout(std::time::Duration::from_secs(30)).ok().flatten()
}

pub fn run(h: &History, real: Box<dyn Real>, st: &mut Stats, o: &Opts) -> RunOut {
  Tag::reset();
  let s = Arc::new(real.schema().clone());
  let mut e = Exec {
    w: World::new(s.clone()),
    real,
    s,
    r: HashMap::new(),
    back: vec![],
    st,
    o,
    step: 0,
    panicked: false,
    pend: vec![],
    sem: Default::default(),
    full: Default::default(),
  };
  let mut needs_debug = false;
  let mut end = End::Held;
  for (i, step) in h.steps.iter().enumerate() {
    e.step = i;
    if let Some(p) = &o.progress {
      p.at(i as u64);
    }
    match if o.jitter > 0 { mix(o.jitter + i as u64) % 16 } else { 99 } {
      0..=3 => std::thread::yield_now(),
      4 => std::thread::sleep(std::time::Duration::from_micros(20)),
      _ => {},
    }
    let r = e.step(step, &mut needs_debug);
    if let Err(f) = e.settle(r) {
      end = match f {
        Fail::Inv(w) => End::Invalid(w),
        Fail::V(v) => End::Broken(*v),
      };
      break;
    }
  }
  let (sem, full) = (e.sem.finish(), e.full.finish());
  let indexes: Vec<Id> = if o.jitter > 0 { e.back.first().map(|b| b.keys().copied().collect()).unwrap_or_default() } else { vec![] };
  let panicked = e.panicked;
  if let End::Held = end {
    // everything goes away, so must every payload
    e.step = h.steps.len();
    let r = e.finish();
    if let Err(Fail::V(v)) = e.settle(r) {
      end = End::Broken(*v);
    }
  }
  let _ = guard(move || drop(e));
  if let End::Held = end {
    if !panicked {
      let l = Tag::live();
      if !l.is_empty() {
        end = End::Broken(Violation::new(VK::Drop, None, h.steps.len(), format!("payloads (tag: live count) after everything was dropped: {l:?}")));
      }
    }
  }
  RunOut { end, sem, full, needs_debug, indexes }
}

impl Exec<'_> {
  fn v<T>(&self, kind: VK, msg: String) -> Res<T> {
    self.vr(kind, None, msg)
  }
  fn vr<T>(&self, kind: VK, reason: Option<Reason>, msg: String) -> Res<T> {
    Err(Fail::V(Box::new(Violation::new(kind, reason, self.step, msg))))
  }
  /// One monitor complained; the others of the same step are still heard.
  fn note(&mut self, r: Res<()>) -> Res<()> {
    match r {
      Err(Fail::V(v)) => {
        self.pend.push(*v);
        Ok(())
      },
      r => r,
    }
  }
  /// What the step amounts to, with everything that was noted
  fn settle(&mut self, r: Res<()>) -> Res<()> {
    if let Err(Fail::Inv(w)) = r {
      self.pend.clear();
      return Err(Fail::Inv(w));
    }
    let _ = self.note(r);
    let mut all = std::mem::take(&mut self.pend);
    if all.is_empty() {
      return Ok(());
    }
    let mut v = all.remove(0);
    for a in all.iter_mut() {
      let inner = std::mem::take(&mut a.also);
      v.also.extend(inner);
    }
    v.also.extend(all);
    Err(Fail::V(Box::new(v)))
  }
  fn id(&self, h: Id) -> Id {
    if h == 0 {
      0
    } else {
      *self.r.get(&h).expect("handle without index")
    }
  }
  fn bind(&mut self, ctx: usize, h: Id, id: Id) -> Res<()> {
    if id == 0 {
      return self.v(VK::Fresh, format!("the empty index was handed out for new node {h}"));
    }
    if let Some(o) = self.back[ctx].insert(id, h) {
      return self.v(VK::Fresh, format!("index {id} was handed out for {h} although it already belongs to {o}"));
    }
    self.r.insert(h, id);
    Ok(())
  }
  fn ctx(&mut self, sel: &CtxSel) -> Res<usize> {
    let c = self.w.new_ctx(sel).map_err(inv)?;
    if let CtxSel::New { default } = sel {
      let k = self.real.new_ctx(*default);
      assert_eq!(k, c);
      self.back.push(HashMap::new());
    }
    Ok(c)
  }
  /// contents of a real graph in terms of handles
  fn read(&self, g: usize) -> Res<(Dump, Nodes)> {
    let d = match self.real.dump(g) {
      Ok(d) => d,
      Err(m) => return self.v(VK::UnexpPanic, format!("iterating graph {g} panicked: {m}")),
    };
    let ctx = self.w.graphs[&g].ctx;
    let back = &self.back[ctx];
    let mut nodes = Nodes::new();
    for (i, n) in &d {
      let mut bad = None;
      let m = n.map(&mut |x| {
        if x == 0 {
          0
        } else {
          *back.get(&x).unwrap_or_else(|| {
            bad = Some(x);
            &u64::MAX
          })
        }
      });
      if let Some(x) = bad {
        return self.v(VK::State, format!("node with index {i} links to index {x}, which was never handed out: {n:?}"));
      }
      match back.get(i) {
        Some(h) => {
          nodes.insert(*h, m);
        },
        None => return self.v(VK::State, format!("the graph holds a node under index {i}, which was never handed out: {n:?}")),
      }
    }
    Ok((d, nodes))
  }
  fn diff(&self, kind: VK, got: &Nodes, want: &Nodes, what: &str) -> Res<()> {
    if got == want {
      return Ok(());
    }
    let mut msg = format!("{what}:");
    let mut bidi = false;
    let keys: BTreeSet<Id> = got.keys().chain(want.keys()).copied().collect();
    for h in keys {
      match (got.get(&h), want.get(&h)) {
        (Some(a), Some(b)) if a == b => {},
        (Some(a), Some(b)) => {
          if a.var == b.var && a.tag == b.tag && a.val == b.val && a.links.len() == b.links.len() {
            for f in 0..a.links.len() {
              if a.links[f] != b.links[f] {
                bidi |= self.s.is_bidi(a.var, f);
                msg += &format!(
                  " node {h} ({}) field {} is {:?}, expected {:?};",
                  self.s.vars[a.var].name, self.s.vars[a.var].fields[f].name, a.links[f], b.links[f]
                );
              }
            }
          } else {
            msg += &format!(" node {h} is {a:?}, expected {b:?};");
          }
        },
        (Some(a), None) => {
          msg += &format!(" unexpected node {h} {a:?};");
        },
        (None, Some(b)) => {
          msg += &format!(" missing node {h} {b:?};");
        },
        _ => {},
      }
    }
    Err(Fail::V(Box::new(Violation { bidi_field: bidi, got: Some(got.clone()), ..Violation::new(kind, None, self.step, msg) })))
  }
  /// compare all graphs with the model; `about` is the graph that the step changed
  fn compare(&mut self, about: Option<usize>, other: VK) -> Res<()> {
    let gs: Vec<usize> = self.w.graphs.keys().copied().collect();
    for g in gs {
      let r = self.compare_one(g, about, other);
      self.note(r)?;
    }
    Ok(())
  }
  fn compare_one(&mut self, g: usize, about: Option<usize>, other: VK) -> Res<()> {
    let mine = Some(g) == about;
    let kind = if mine { VK::State } else { other };
    let (d, got) = match self.read(g) {
      Err(Fail::V(mut v)) => {
        if v.kind == VK::State {
          v.kind = kind;
        }
        return Err(Fail::V(v));
      },
      x => x?,
    };
    if mine {
      self.symmetry(g, &got)?;
    }
    let r = self.diff(kind, &got, &self.w.graphs[&g].nodes, &format!("graph {g}"));
    let same = r.is_ok();
    self.note(r)?;
    if self.o.views && (mine || !same || self.step % 4 == 0) {
      self.views(g, &d)?;
    }
    if mine && same {
      let mut hs = std::collections::hash_map::DefaultHasher::new();
      self.s.name.hash(&mut hs);
      for n in got.values() {
        (n.var, &n.links).hash(&mut hs);
      }
      if self.st.states.len() < 400_000 {
        self.st.states.insert(hs.finish());
      }
      self.st.top("max graph size", got.len());
      if self.o.digest {
        let mut sorted = d.clone();
        sorted.sort_by_key(|x| x.0);
        sorted.hash(&mut self.sem);
        d.hash(&mut self.full);
        for r in [self.real.display(g), self.real.json(g)] {
          match r {
            Ok(t) => t.hash(&mut self.full),
            Err(m) => return self.v(VK::UnexpPanic, format!("printing graph {g} panicked: {m}")),
          }
        }
      }
    }
    Ok(())
  }
  /// a direct monitor: does not depend on what the model says about the step
  fn symmetry(&mut self, g: usize, got: &Nodes) -> Res<()> {
    let Some(m) = asymmetry(&self.s, got, true) else { return Ok(()) };
    // (only as far as the model agrees that the pair is defined)
    if asymmetry(&self.s, &self.w.graphs[&g].nodes, true).is_none() {
      let r = self.v(VK::Symmetry, format!("graph {g}: {m}"));
      self.note(r)?;
    }
    Ok(())
  }
  /// direct monitors: every view against what iter lists
  fn views(&mut self, g: usize, d: &Dump) -> Res<()> {
    let gr = &self.w.graphs[&g];
    let here: HashSet<Id> = d.iter().map(|x| x.0).collect();
    let mut absent: Vec<Id> = self.back[gr.ctx].keys().copied().filter(|i| !here.contains(i)).collect();
    absent.sort();
    let top = self.back[gr.ctx].keys().max().copied().unwrap_or(0);
    if absent.len() > 40 {
      let n = absent.len() / 20 + 1;
      absent = absent.into_iter().skip(self.step % n).step_by(n).collect();
    }
    absent.extend([top + 1, top + 1000, u64::MAX >> 1, u64::MAX].into_iter().filter(|i| !here.contains(i)));
    for typed in [false, true] {
      let k = if typed { VK::TypedView } else { VK::View };
      let r = match self.real.views(g, d, &absent, typed) {
        Ok(None) => Ok(()),
        Ok(Some(m)) => self.v(k, format!("graph {g}: {m}")),
        Err(m) => self.v(k, format!("graph {g}: a view panicked: {m}")),
      };
      self.note(r)?;
    }
    self.st.add("view comparisons", 1);
    let closed = d.iter().all(|(_, n)| n.links.iter().all(|l| l.ids().iter().all(|x| *x == 0 || here.contains(x))));
    let armed = cfg!(all(debug_assertions, feature = "debug"));
    self.st.add(if closed { "self checks of closed graphs" } else { "self checks of graphs with external links" }, 1);
    match self.real.integrity(g) {
      Err(m) if closed => self.v(VK::Integrity, format!("check_integrity of graph {g} without external links panicked: {m}")),
      Err(m) if !armed => self.v(VK::Integrity, format!("check_integrity of graph {g} panicked in a build without self checks: {m}")),
      Ok(()) if armed && !closed => self.v(VK::Integrity, format!("check_integrity of graph {g} did not notice an external link")),
      _ => Ok(()),
    }
  }
  fn drops(&mut self) -> Res<()> {
    if self.panicked {
      return Ok(());
    }
    let mut want: BTreeMap<u64, i64> = BTreeMap::new();
    for n in self.w.graphs.values().flat_map(|g| g.nodes.values()).chain(self.w.trans.values().flat_map(|t| t.new.values())) {
      *want.entry(n.tag).or_insert(0) += 1;
    }
    for t in self.w.trans.values() {
      for (_, _, typed, uid) in t.muts.iter().chain(&t.upds) {
        if typed.is_none() || self.o.plain_macros {
          *want.entry(TOKEN + uid).or_insert(0) += 1;
        }
      }
    }
    let got = Tag::live();
    self.st.add("payload censuses", 1);
    if got != want {
      let bad: Vec<String> = got
        .keys()
        .chain(want.keys())
        .collect::<BTreeSet<_>>()
        .into_iter()
        .filter(|k| got.get(k) != want.get(k))
        .map(|k| {
          let what = if *k >= TOKEN { format!("closure of operation {}", k - TOKEN) } else { format!("payload {k}") };
          format!("{what}: {} alive, expected {}", got.get(k).unwrap_or(&0), want.get(k).unwrap_or(&0))
        })
        .collect();
      return self.v(VK::Drop, bad.join("; "));
    }
    Ok(())
  }
  fn no_obs(&mut self, when: &str) -> Res<()> {
    let o = self.real.take_obs();
    if !o.is_empty() {
      return self.v(VK::Obs, format!("closures of operations {:?} ran {when}", o.iter().map(|x| x.0).collect::<Vec<_>>()));
    }
    Ok(())
  }
  fn real_obs(&mut self, ctx: usize) -> Vec<(u64, MNode)> {
    let b = &self.back[ctx];
    self.real.take_obs().into_iter().map(|(u, n)| (u, n.map(&mut |x| if x == 0 { 0 } else { *b.get(&x).unwrap_or(&u64::MAX) }))).collect()
  }

  fn step(&mut self, step: &Step, needs_debug: &mut bool) -> Res<()> {
    self.st.add("steps", 1);
    self.st.top("max graph count", self.w.graphs.len());
    self.st.top("max open transactions", self.w.trans.len());
    match step {
      Step::NewGraph { g, ctx } => {
        if self.w.graphs.contains_key(g) {
          return Err(Fail::Inv("slot in use"));
        }
        let c = self.ctx(ctx)?;
        self.w.graphs.insert(*g, MGraph { ctx: c, nodes: Nodes::new() });
        if let Err(m) = self.real.new_graph(*g, c) {
          return self.v(VK::UnexpPanic, m);
        }
        self.compare(Some(*g), VK::Isolation)
      },
      Step::Begin { t, g } => {
        if self.w.trans.contains_key(t) {
          return Err(Fail::Inv("transaction in use"));
        }
        let Some(c) = self.w.graphs.get(g).map(|g| g.ctx) else { return Err(Fail::Inv("no graph")) };
        self.w.trans.insert(*t, MTrans { ctx: c, ..Default::default() });
        if let Err(m) = self.real.begin(*t, c) {
          return self.v(VK::UnexpPanic, m);
        }
        self.trans_empty(*t)
      },
      Step::Op { t, op } => self.op(*t, op),
      Step::Commit { t, g, checks } => self.commit(*t, *g, if self.o.plain_commits { None } else { checks.as_deref() }, needs_debug),
      Step::GiveUp { t, how } => {
        if self.w.trans.remove(t).is_none() {
          return Err(Fail::Inv("no transaction"));
        }
        self.st.add("transactions given up", 1);
        if let Err(m) = self.real.drop_trans(*t, *how) {
          return self.v(VK::UnexpPanic, format!("giving up a transaction panicked: {m}"));
        }
        self.no_obs("although the transaction was given up")?;
        self.compare(None, VK::Inert)?;
        self.drops()
      },
      Step::Switch { g, to, uid, how } => self.switch(*g, to, *uid, *how),
      Step::SerDe { g, uid, mode, keep, how, craft } => self.serde(*g, *uid, *mode, *keep, *how, craft.as_ref()),
      Step::DropGraph { g, mode } => {
        let Some(m) = self.w.graphs.get(g) else { return Err(Fail::Inv("no graph")) };
        let want = m.nodes.clone();
        let ctx = m.ctx;
        match self.real.drop_graph(*g, *mode) {
          Err(m) => return self.v(VK::View, format!("consuming graph {g} panicked: {m}")),
          Ok(None) => {},
          Ok(Some(d)) => {
            let b = &self.back[ctx];
            let got: Nodes = d
              .iter()
              .map(|(i, n)| {
                (*b.get(i).unwrap_or(&u64::MAX), n.map(&mut |x| if x == 0 { 0 } else { *b.get(&x).unwrap_or(&u64::MAX) }))
              })
              .collect();
            if got.len() != d.len() {
              return self.v(VK::View, "owned into_iter lists a node twice".into());
            }
            self.diff(VK::View, &got, &want, "owned into_iter")?;
          },
        }
        self.w.graphs.remove(g);
        self.st.add("graphs consumed", 1);
        self.compare(None, VK::Isolation)?;
        self.drops()
      },
    }
  }

  fn trans_empty(&mut self, t: usize) -> Res<()> {
    let tr = &self.w.trans[&t];
    let want = if tr.ops == 0 {
      true
    } else if tr.pending() {
      false
    } else {
      return Ok(());
    };
    match self.real.trans_empty(t) {
      Ok(x) if x == want => Ok(()),
      Ok(x) => self.v(VK::TransEmpty, format!("is_empty() of transaction {t} is {x} after {} operations", tr.ops)),
      Err(m) => self.v(VK::UnexpPanic, m),
    }
  }

  fn op(&mut self, t: usize, op: &Op) -> Res<()> {
    let Some(ctx) = self.w.trans.get(&t).map(|t| t.ctx) else { return Err(Fail::Inv("no transaction")) };
    // the counterfactual of a merge: plain insertions of the same nodes
    if let OpK::Merge { g, how: How::Rebuild } = &op.k {
      let d = match self.real.dump(*g) {
        Ok(d) => d,
        Err(_) => return Err(Fail::Inv("dump")),
      };
      match self.w.op(t, op) {
        Ok(_) => {},
        Err(_) => return Err(Fail::Inv("merge")),
      }
      self.real.forget_graph(*g);
      let Ok(m) = self.real.rebuild_into(t, &d) else { return Err(Fail::Inv("rebuild")) };
      for (old, new) in m {
        let h = self.back[ctx].remove(&old).unwrap();
        self.back[ctx].insert(new, h);
        self.r.insert(h, new);
      }
      return Ok(());
    }
    self.features(t, op);
    let expect = self.w.op(t, op);
    if let Err(Stop::Ambig(a)) = &expect {
      return Err(Fail::Inv(a));
    }
    self.st.add(op_name(&op.k), 1);
    let mut tr = op.map_refs(&mut |h| self.id(h));
    match &mut tr.k {
      OpK::Fill { h, .. } | OpK::Remove { h } | OpK::Mutate { h, .. } | OpK::Update { h, .. } => *h = self.id(*h),
      OpK::Redirect { a, b } | OpK::RedirectAll { a, b } => {
        *a = self.id(*a);
        *b = self.id(*b);
      },
      _ => {},
    }
    let got = self.real.op(t, &tr, self.o.plain_macros);
    match (expect, got) {
      (Err(Stop::Panic(r)), Ok(_)) => self.vr(VK::MissPanic, Some(r), format!("no panic on {:?}: {r:?}", op.k)),
      (Err(Stop::Panic(r)), Err(_)) => {
        self.st.add(panic_name(r), 1);
        self.panicked = true;
        1u8.hash(&mut self.sem);
        self.real.take_obs();
        let _ = self.real.drop_trans(t, 1);
        self.w.trans.remove(&t);
        if let OpK::Merge { g, .. } = &op.k {
          // the call consumed the graph
          self.w.graphs.remove(g);
        }
        let o = self.no_obs("although the transaction was dropped");
        self.note(o)?;
        self.compare(None, VK::Rejected)
      },
      (Ok(_), Err(m)) => self.v(VK::UnexpPanic, format!("{:?} panicked: {m}", op.k)),
      (Ok(obs), Ok(id)) => {
        match &op.k {
          OpK::Insert { h, .. } | OpK::Alloc { h, .. } => {
            id.hash(&mut self.sem);
            id.hash(&mut self.full);
            self.bind(ctx, *h, id.unwrap())?
          },
          _ => {},
        }
        let seen = self.real_obs(ctx);
        let want: Vec<(u64, MNode)> = obs.into_iter().collect();
        let r = self.cmp_obs(&seen, &want, "at the call");
        self.note(r)?;
        let r = self.trans_empty(t);
        self.note(r)?;
        let size: usize = self.w.graphs.values().map(|g| g.nodes.len()).sum();
        if op.uid % (4 + size as u64 / 8) == 0 || matches!(op.k, OpK::Merge { .. }) {
          self.compare(None, VK::Inert)?;
          self.drops()?;
        }
        Ok(())
      },
      _ => unreachable!(),
    }
  }
  /// counts unusual situations, as evidence of what was reached
  fn features(&mut self, t: usize, op: &Op) {
    let tr = &self.w.trans[&t];
    let here = |h: &Id| self.w.graphs.values().any(|g| g.nodes.contains_key(h)) || tr.new.contains_key(h) || tr.allocs.contains_key(h);
    let k = match &op.k {
      OpK::Mutate { h, .. } | OpK::Update { h, .. } if tr.removed.contains(h) => "change of a node being removed",
      OpK::Mutate { h, .. } | OpK::Update { h, .. } if tr.allocs.contains_key(h) => "change of an unfilled node",
      OpK::Mutate { h, .. } | OpK::Update { h, .. } if tr.new.contains_key(h) => "change of a pending node",
      OpK::Remove { h } if tr.removed.contains(h) => "node removed twice",
      OpK::Remove { h } if tr.new.contains_key(h) || tr.allocs.contains_key(h) => "pending node removed",
      OpK::Redirect { a, b } if tr.redir.contains(&(*a, *b)) => "redirect repeated",
      OpK::RedirectAll { a, b } if tr.redir_all.contains(&(*a, *b)) => "redirect repeated",
      OpK::Redirect { b: 0, .. } | OpK::RedirectAll { b: 0, .. } => "redirect to nothing",
      OpK::Redirect { a, .. } | OpK::RedirectAll { a, .. } if !here(a) => "redirect of an absent node",
      OpK::Redirect { b, .. } | OpK::RedirectAll { b, .. } if !here(b) => "redirect to an absent node",
      _ => return,
    };
    self.st.add(k, 1);
  }
  fn cmp_obs(&mut self, seen: &[(u64, MNode)], want: &[(u64, MNode)], when: &str) -> Res<()> {
    self.st.add("closure runs", want.len() as u64);
    if seen != want {
      let m = if seen.iter().map(|x| x.0).collect::<Vec<_>>() != want.iter().map(|x| x.0).collect::<Vec<_>>() {
        format!(
          "closures that ran {when}: operations {:?}, expected {:?}",
          seen.iter().map(|x| x.0).collect::<Vec<_>>(),
          want.iter().map(|x| x.0).collect::<Vec<_>>()
        )
      } else {
        let i = (0..seen.len()).find(|i| seen[*i] != want[*i]).unwrap();
        format!("the closure of operation {} saw {:?}, expected {:?}", seen[i].0, seen[i].1, want[i].1)
      };
      return self.v(VK::Obs, m);
    }
    Ok(())
  }

  fn commit(&mut self, t: usize, g: usize, checks: Option<&[Chk]>, needs_debug: &mut bool) -> Res<()> {
    let mut expect = self.w.commit(t, g);
    if let Err(Stop::Ambig(a)) = &expect {
      return Err(Fail::Inv(a));
    }
    let pre = self.w.graphs[&g].nodes.clone();
    let mut failing = None;
    if let (Ok(info), Some(cs)) = (&expect, checks) {
      match check_verdict(&self.s, info, cs) {
        Some(true) => {
          failing = Some(info.clone());
          expect = Err(Stop::Panic(Reason::CheckFailed))
        },
        Some(false) => {},
        None => return Err(Fail::Inv("check on a link that may or may not count")),
      }
    }
    if matches!(expect, Err(Stop::Panic(Reason::LinkType | Reason::CheckFailed))) {
      *needs_debug = true;
      if !cfg!(feature = "debug") {
        return Err(Fail::Inv("needs the debug feature"));
      }
    }
    let ctx = self.w.graphs[&g].ctx;
    let checks_r: Option<Vec<Chk>> = checks.map(|cs| {
      cs.iter().map(|c| Chk { fail: c.fail.map(|h| *self.r.get(&h).unwrap_or(&u64::MAX)), ..c.clone() }).collect()
    });
    let got = match &checks_r {
      None => self.real.commit(t, g).map(|_| vec![]),
      Some(cs) => self.real.commit_checked(t, g, cs),
    };
    match (expect, got) {
      (Err(Stop::Panic(r)), Ok(_)) => {
        let e: Res<()> = self.vr(VK::MissPanic, Some(r), format!("the commit succeeded although it must panic: {r:?}"));
        self.note(e)?;
        if r.is_bidi() {
          if let Ok((_, got)) = self.read(g) {
            self.symmetry(g, &got)?;
          }
        }
        self.with_pre(Ok(()), &pre, None)
      },
      (Err(Stop::Panic(r)), Err(_)) => {
        self.st.add(panic_name(r), 1);
        self.panicked = true;
        2u8.hash(&mut self.sem);
        2u8.hash(&mut self.full);
        self.real.take_obs();
        let tr = self.w.trans.remove(&t);
        if let (Some(info), Some(cs), true) = (&failing, checks, tr.is_some_and(|t| t.extended.is_empty())) {
          let calls = self.real.take_calls();
          let r = self.check_calls(info, cs, calls, ctx, true);
          self.note(r)?;
        }
        if matches!(r, Reason::ForeignCtx | Reason::Unfilled) {
          self.compare(None, VK::Rejected)
        } else {
          // the graph is in an unspecified state from here on
          let _ = self.real.drop_graph(g, 0);
          self.w.graphs.remove(&g);
          self.compare(None, VK::Isolation)
        }
      },
      (Ok(info), Err(m)) => {
        let e: Res<()> = self.v(VK::UnexpPanic, format!("commit panicked: {m}"));
        self.with_pre(e, &pre, Some(info))
      },
      (Ok(info), Ok(calls)) => {
        self.st.add("commits", 1);
        self.st.add("links completed by declarations", (info.auto_adds + info.auto_removes) as u64);
        self.st.add("illegal links that are not new", info.old_illegal as u64);
        let ext = self.w.trans[&t].extended.clone();
        self.w.finish_commit(t, g, &info);
        let r = (|| {
          self.bind_extended(ctx, g, &ext)?;
          let seen = self.real_obs(ctx);
          let r = self.cmp_obs(&seen, &info.obs, "in the commit");
          self.note(r)?;
          self.compare(Some(g), VK::Isolation)?;
          if let (Some(cs), true) = (checks, cfg!(feature = "debug")) {
            let r = self.check_log(&info, cs, calls, ctx, g);
            self.note(r)?;
          }
          let r = self.drops();
          self.note(r)
        })();
        self.with_pre(r, &pre, Some(info))
      },
      _ => unreachable!(),
    }
  }
  fn with_pre(&mut self, r: Res<()>, pre: &Nodes, info: Option<CommitInfo>) -> Res<()> {
    self.note(r)?;
    let info = info.map(Box::new);
    for v in &mut self.pend {
      v.pre = Some(pre.clone());
      v.info = info.clone();
    }
    Ok(())
  }
  fn bind_extended(&mut self, ctx: usize, g: usize, ext: &BTreeSet<Id>) -> Res<()> {
    if ext.is_empty() {
      return Ok(());
    }
    let Ok(d) = self.real.dump(g) else { return self.v(VK::UnexpPanic, "iter panicked".into()) };
    let mut tags: HashMap<u64, Id> = HashMap::new();
    for h in ext {
      if let Some(n) = self.w.graphs[&g].nodes.get(h) {
        tags.insert(n.tag, *h);
      }
    }
    for (i, n) in d {
      if let Some(h) = tags.get(&n.tag) {
        if let Some(o) = self.back[ctx].get(&i) {
          if o != h {
            return self.v(VK::Fresh, format!("index {i} was handed out for {h} although it already belongs to {o}"));
          }
        }
        if !self.r.contains_key(h) {
          self.bind(ctx, *h, i)?;
        }
      }
    }
    for h in ext {
      if !self.r.contains_key(h) {
        return self.v(VK::State, format!("node {h} given to extend is not in the graph"));
      }
    }
    Ok(())
  }

  /// The calls against what the graph held before and after, whether or not that is what the model expects.
  fn check_log(&mut self, info: &CommitInfo, cs: &[Chk], calls: Vec<CheckCall>, ctx: usize, g: usize) -> Res<()> {
    let Ok((_, nodes)) = self.read(g) else { return Ok(()) };
    let mut actual = info.clone();
    if nodes != info.nodes {
      let (l0, l1) = (triples(&info.pre), triples(&nodes));
      actual.adds = l1.difference(&l0).copied().collect();
      actual.removes = l0.difference(&l1).copied().collect();
      for t in actual.adds.iter().chain(&actual.removes) {
        actual.may.extend([t.0, t.1]);
      }
      actual.may.extend(nodes.iter().filter(|(h, n)| info.pre.get(h) != Some(n)).map(|x| *x.0));
      actual.may.retain(|h| nodes.contains_key(h));
      actual.nodes = nodes;
    }
    self.check_calls(&actual, cs, calls, ctx, false)
  }
  /// With `failed`, some check failed, which ends that check but not the others
  fn check_calls(&mut self, info: &CommitInfo, cs: &[Chk], calls: Vec<CheckCall>, ctx: usize, failed: bool) -> Res<()> {
    self.st.add("check calls", calls.len() as u64);
    self.st.add(if failed { "checked commits that failed" } else { "checked commits" }, 1);
    let b = &self.back[ctx];
    let tr = |x: Id| if x == 0 { 0 } else { *b.get(&x).unwrap_or(&u64::MAX) };
    let mut per: BTreeMap<(u8, String), BTreeMap<(Id, Id), usize>> = BTreeMap::new();
    for c in cs.iter().filter(|c| !c.removed) {
      per.insert((c.kind, c.name.clone()), BTreeMap::new());
    }
    for c in &calls {
      let (x, y) = (tr(c.x), tr(c.y));
      let what = ["node check", "link add check", "link remove check"][c.kind as usize];
      let Some(m) = per.get_mut(&(c.kind, c.name.clone())) else {
        return self.v(VK::CheckLog, format!("{what} {} was called although it is not registered", c.name));
      };
      let from = c.from.map(&mut |x| tr(x));
      let to = c.to.as_ref().map(|n| n.map(&mut |x| tr(x)));
      if info.nodes.get(&x) != Some(&from) {
        return self.v(VK::CheckLog, format!("{what} {} got {from:?} for node {x}, the graph holds {:?}", c.name, info.nodes.get(&x)));
      }
      if c.kind > 0 && to.as_ref() != info.nodes.get(&y) {
        return self.v(VK::CheckLog, format!("{what} {} got {to:?} for target {y}, the graph holds {:?}", c.name, info.nodes.get(&y)));
      }
      *m.entry((x, y)).or_insert(0) += 1;
    }
    for ((kind, name), m) in per {
      let (lower, upper) = check_bounds(&self.s, info, kind);
      let what = ["node check", "link add check", "link remove check"][kind as usize];
      // a check that fails is not called again
      let ends = failed && cs.iter().any(|c| !c.removed && c.kind == kind && c.name == name && c.fail.is_some_and(|h| upper.keys().any(|k| k.0 == h)));
      for (k, lo) in &lower {
        let n = *m.get(k).unwrap_or(&0);
        if n < *lo && !ends {
          return self.v(VK::CheckLog, format!("{what} {name} was called {n} times about {k:?}, expected {lo}"));
        }
      }
      for (k, n) in &m {
        let up = *upper.get(k).unwrap_or(&0);
        if *n > up {
          return self.v(VK::CheckLog, format!("{what} {name} was called {n} times about {k:?}, expected at most {up}"));
        }
      }
    }
    Ok(())
  }

  fn switch(&mut self, g: usize, to: &CtxSel, uid: u64, how: How) -> Res<()> {
    let Some(old) = self.w.graphs.get(&g).cloned() else { return Err(Fail::Inv("no graph")) };
    let tags: HashSet<u64> = old.nodes.values().map(|n| n.tag).collect();
    if tags.len() != old.nodes.len() {
      return Err(Fail::Inv("payloads not unique"));
    }
    let nctx = self.w.ctxs.len();
    let c = self.w.switch(g, to, uid).map_err(inv)?;
    if let CtxSel::New { default } = to {
      let k = self.real.new_ctx(*default);
      assert!(k == c && c == nctx);
      self.back.push(HashMap::new());
    }
    self.st.add("context switches", 1);
    if how == How::Rebuild {
      let Ok(d) = self.real.dump(g) else { return Err(Fail::Inv("dump")) };
      self.real.forget_graph(g);
      if self.real.rebuild(&d, c, g).is_err() {
        return Err(Fail::Inv("rebuild"));
      }
    } else if let Err(m) = self.real.switch(g, c) {
      return self.v(VK::UnexpPanic, format!("switch_context panicked: {m}"));
    }
    let d = match self.real.dump(g) {
      Ok(d) => d,
      Err(m) => return self.v(VK::UnexpPanic, m),
    };
    let by_tag: HashMap<u64, Id> = old.nodes.iter().map(|(h, n)| (n.tag, *h)).collect();
    let mut seen = HashSet::new();
    for (i, n) in &d {
      let Some(h) = by_tag.get(&n.tag) else {
        return self.v(VK::State, format!("after switch_context there is an unknown node {n:?}"));
      };
      if !seen.insert(*h) {
        return self.v(VK::State, format!("after switch_context node {h} is there twice"));
      }
      self.bind(c, relabel(*h, uid), *i)?;
    }
    if d.len() != old.nodes.len() {
      return self.v(VK::State, format!("switch_context kept {} of {} nodes", d.len(), old.nodes.len()));
    }
    self.compare(Some(g), VK::Isolation)?;
    let r = self.drops();
    self.note(r)
  }

  fn serde(&mut self, g: usize, uid: u64, mode: u8, keep: Option<usize>, how: How, craft: Option<&Craft>) -> Res<()> {
    let Some(before) = self.w.graphs.get(&g).map(|g| g.nodes.clone()) else { return Err(Fail::Inv("no graph")) };
    let (slot, c, used) = self.w.serde(g, uid, keep, craft).map_err(inv)?;
    self.st.add("serialization round trips", 1);
    self.back.push(HashMap::new());
    if how == How::Rebuild {
      let Ok(d) = self.real.dump(g) else { return Err(Fail::Inv("dump")) };
      let nodes: HashSet<Id> = d.iter().map(|x| x.0).collect();
      if used.iter().any(|h| !nodes.contains(&self.id(*h))) {
        return Err(Fail::Inv("external link"));
      }
      if keep.is_none() {
        self.real.forget_graph(g);
      }
      let k = self.real.new_ctx(false);
      assert_eq!(k, c);
      let Ok(m) = self.real.rebuild(&d, c, slot) else { return Err(Fail::Inv("rebuild")) };
      for h in used {
        let i = m[&self.id(h)];
        self.back[c].insert(i, relabel(h, uid));
        self.r.insert(relabel(h, uid), i);
      }
    } else {
      let shift = craft.map_or(0, |c| c.shift);
      let got = match craft {
        None => self.real.serde(g, mode, keep).map(Some),
        Some(cr) => {
          self.st.add("crafted serialized forms", 1);
          self.st.add("one sided links deserialized", cr.less.len() as u64);
          let mut cut = before;
          cut_links(&mut cut, &cr.less).map_err(inv)?;
          let mut d: Dump =
            cut.iter().map(|(h, n)| (self.id(*h) + shift, n.map(&mut |x| if x == 0 { 0 } else { self.id(x) + shift }))).collect();
          if cr.order != 0 {
            d.sort_by_key(|x| mix(x.0 ^ cr.order));
          }
          self.real.serde_crafted(g, &d, keep)
        },
      };
      match got {
        Ok(Some(k)) => assert_eq!(k, c),
        Ok(None) => return Err(Fail::Inv("the serialized form is not understood")),
        Err(m) => return self.v(VK::UnexpPanic, format!("serialization round trip panicked: {m}")),
      }
      for h in used {
        let i = self.id(h) + shift;
        self.back[c].insert(i, relabel(h, uid));
        self.r.insert(relabel(h, uid), i);
      }
    }
    self.compare(Some(slot), VK::Isolation)?;
    self.drops()
  }

  fn finish(&mut self) -> Res<()> {
    let ts: Vec<usize> = self.w.trans.keys().copied().collect();
    for t in ts {
      self.w.trans.remove(&t);
      if let Err(m) = self.real.drop_trans(t, (t % 2) as u8) {
        return self.v(VK::UnexpPanic, format!("giving up a transaction panicked: {m}"));
      }
    }
    self.no_obs("although the transaction was given up")?;
    self.compare(None, VK::Inert)?;
    self.drops()?;
    let gs: Vec<usize> = self.w.graphs.keys().copied().collect();
    let mut nd = false;
    for g in gs {
      self.step(&Step::DropGraph { g, mode: ((g + self.w.known.len()) % 5) as u8 }, &mut nd)?;
    }
    Ok(())
  }
}

fn inv(s: Stop) -> Fail {
  match s {
    Stop::Ambig(a) => Fail::Inv(a),
    Stop::Panic(_) => Fail::Inv("panic"),
  }
}

type Bounds = BTreeMap<(Id, Id), usize>;
/// How often a check must and may be called, per node (kind 0) or per link (kinds 1 and 2).
pub fn check_bounds(s: &Schema, info: &CommitInfo, kind: u8) -> (Bounds, Bounds) {
  let mut lo = Bounds::new();
  let mut up = Bounds::new();
  if kind == 0 {
    for h in &info.may {
      up.insert((*h, 0), 1);
    }
    for (h, n) in &info.nodes {
      if info.pre.get(h) != Some(n) {
        lo.insert((*h, 0), 1);
      }
    }
    return (lo, up);
  }
  let set = if kind == 1 { &info.adds } else { &info.removes };
  for (x, y, _, _) in set {
    if info.nodes.contains_key(x) {
      *lo.entry((*x, *y)).or_insert(0) += 1;
    }
  }
  up.extend(lo.iter().map(|(k, v)| (*k, *v)));
  // one more or one less occurrence in a vector may count as an added or removed link
  let count = |nodes: &Nodes, x: Id, var: usize, f: usize, y: Id| -> usize {
    match nodes.get(&x) {
      Some(n) if n.var == var => match &n.links[f] {
        Link::V(v) => v.iter().filter(|z| **z == y).count(),
        _ => 0,
      },
      _ => 0,
    }
  };
  let (from, to) = if kind == 1 { (&info.pre, &info.nodes) } else { (&info.nodes, &info.pre) };
  for (x, n) in to.iter().filter(|x| info.nodes.contains_key(x.0)) {
    for (f, l) in n.links.iter().enumerate() {
      if s.vars[n.var].fields[f].kind != Kind::Vec {
        continue;
      }
      let ys: BTreeSet<Id> = l.ids().into_iter().filter(|y| *y != 0).collect();
      for y in ys {
        let (a, b) = (count(from, *x, n.var, f, y), count(to, *x, n.var, f, y));
        if b > a && a > 0 {
          *up.entry((*x, y)).or_insert(0) += b - a;
        }
      }
    }
  }
  (lo, up)
}
/// Some(true): a registered check must fail. None: it may.
pub fn check_verdict(s: &Schema, info: &CommitInfo, cs: &[Chk]) -> Option<bool> {
  let mut maybe = false;
  for c in cs.iter().filter(|c| !c.removed) {
    let Some(h) = c.fail else { continue };
    let (lo, up) = check_bounds(s, info, c.kind);
    if lo.keys().any(|k| k.0 == h) {
      return Some(true);
    }
    maybe |= up.keys().any(|k| k.0 == h);
  }
  if maybe {
    None
  } else {
    Some(false)
  }
}

pub fn op_name(k: &OpK) -> &'static str {
  match k {
    OpK::Insert { .. } => "op insert",
    OpK::Extend { .. } => "op extend",
    OpK::Alloc { .. } => "op alloc",
    OpK::Fill { .. } => "op fill_back",
    OpK::Remove { .. } => "op remove",
    OpK::Mutate { typed: None, .. } => "op mutate",
    OpK::Mutate { .. } => "op mut_node!",
    OpK::Update { typed: None, .. } => "op update",
    OpK::Update { .. } => "op update_node!",
    OpK::Redirect { .. } => "op redirect_links",
    OpK::RedirectAll { .. } => "op redirect_all_links",
    OpK::Merge { .. } => "op merge",
  }
}
pub fn panic_name(r: Reason) -> &'static str {
  use Reason::*;
  match r {
    ForeignCtx => "panic foreign context",
    Unfilled => "panic unfilled alloc",
    BadMutate => "panic mutate absent",
    BadUpdate => "panic update absent",
    BadRemove => "panic remove absent",
    RedirectLoop => "panic redirect loop",
    BidiOccupied => "panic counterpart occupied",
    BidiChoice => "panic several counterparts",
    LinkType => "panic link type",
    ClosureType => "panic closure variant",
    FillWrongType => "panic fill wrong type",
    FillTwice => "panic fill twice",
    FillUnknown => "panic fill unknown",
    MergeForeign => "panic merge foreign",
    CheckFailed => "panic check failed",
  }
}
