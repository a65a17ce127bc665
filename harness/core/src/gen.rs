//! Random histories. The generator only consults the reference model: it keeps an operation if the
//! documentation decides what it must do, and now and then keeps one that must panic.
use crate::exec::check_verdict;
use crate::hist::*;
use crate::model::*;
use crate::schema::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub enum Adv {
  Ok,
  Panicked,
}
/// Let the model take a step, with the consequences that a panic has in `exec`.
pub fn advance(w: &mut World, step: &Step) -> Result<Adv, &'static str> {
  match step {
    Step::NewGraph { g, ctx } => {
      if w.graphs.contains_key(g) {
        return Err("slot in use");
      }
      let c = w.new_ctx(ctx).map_err(|_| "ctx")?;
      w.graphs.insert(*g, MGraph { ctx: c, nodes: Nodes::new() });
    },
    Step::Begin { t, g } => {
      if w.trans.contains_key(t) {
        return Err("transaction in use");
      }
      let c = w.graphs.get(g).ok_or("no graph")?.ctx;
      w.trans.insert(*t, MTrans { ctx: c, ..Default::default() });
    },
    Step::Op { t, op } => match w.op(*t, op) {
      Ok(_) => {},
      Err(Stop::Ambig(a)) => return Err(a),
      Err(Stop::Panic(_)) => {
        w.trans.remove(t);
        if let OpK::Merge { g, .. } = &op.k {
          w.graphs.remove(g);
        }
        return Ok(Adv::Panicked);
      },
    },
    Step::Commit { t, g, checks } => {
      let mut e = w.commit(*t, *g);
      if let (Ok(info), Some(cs)) = (&e, checks) {
        match check_verdict(&w.schema, info, cs) {
          Some(true) => e = Err(Stop::Panic(Reason::CheckFailed)),
          Some(false) => {},
          None => return Err("check on a link that may or may not count"),
        }
      }
      match e {
        Ok(info) => w.finish_commit(*t, *g, &info),
        Err(Stop::Ambig(a)) => return Err(a),
        Err(Stop::Panic(r)) => {
          w.trans.remove(t);
          if !matches!(r, Reason::ForeignCtx | Reason::Unfilled) {
            w.graphs.remove(g);
          }
          return Ok(Adv::Panicked);
        },
      }
    },
    Step::GiveUp { t, .. } => {
      w.trans.remove(t).ok_or("no transaction")?;
    },
    Step::Switch { g, to, uid, .. } => {
      w.switch(*g, to, *uid).map_err(|_| "switch")?;
    },
    Step::SerDe { g, uid, keep, craft, .. } => {
      w.serde(*g, *uid, *keep, craft.as_ref()).map_err(|_| "serde")?;
    },
    Step::DropGraph { g, .. } => {
      w.graphs.remove(g).ok_or("no graph")?;
    },
  }
  Ok(Adv::Ok)
}

/// Weights of what a history does
#[derive(Clone, Debug)]
pub struct Profile {
  pub steps: (usize, usize),
  pub size: usize,
  pub graphs: usize,
  pub open: usize,
  // steps
  pub commit: f64,
  pub giveup: f64,
  pub newgraph: f64,
  pub switch: f64,
  pub serde: f64,
  pub dropgraph: f64,
  // operations
  pub insert: f64,
  pub alloc: f64,
  pub remove: f64,
  pub mutate: f64,
  pub update: f64,
  pub redirect: f64,
  pub redirect_all: f64,
  pub extend: f64,
  pub merge: f64,
  pub pair: f64,
  pub swap: f64,
  pub replace: f64,
  pub cluster: f64,
  pub variant: f64,
  pub cancel: f64,
  pub misuse: f64,
  pub looped: f64,
  pub again: f64,
  pub burst: f64,
  /// operations in their hundreds at once, and how many
  pub mass: f64,
  pub many: usize,
  /// most links in a vector or set of a new node, longest redirect chain
  pub wide: usize,
  pub chain: usize,
  // shares
  pub typed: f64,
  pub dangling: f64,
  pub illegal: f64,
  pub aftermath: f64,
  pub probe: f64,
  pub checks: f64,
  pub empties: f64,
}
impl Default for Profile {
  fn default() -> Profile {
    Profile {
      steps: (12, 70),
      size: 10,
      graphs: 3,
      open: 2,
      commit: 0.22,
      giveup: 0.015,
      newgraph: 0.015,
      switch: 0.01,
      serde: 0.01,
      dropgraph: 0.004,
      insert: 1.0,
      alloc: 0.5,
      remove: 0.6,
      mutate: 1.2,
      update: 0.8,
      redirect: 0.4,
      redirect_all: 0.4,
      extend: 0.15,
      merge: 0.12,
      pair: 0.7,
      swap: 0.25,
      replace: 0.3,
      cluster: 0.35,
      variant: 0.15,
      cancel: 0.12,
      misuse: 0.01,
      looped: 0.01,
      again: 0.15,
      burst: 0.08,
      mass: 0.0,
      many: 0,
      wide: 4,
      chain: 4,
      typed: 0.35,
      dangling: 0.04,
      illegal: 0.03,
      aftermath: 0.15,
      probe: 0.03,
      checks: 0.1,
      empties: 0.01,
    }
  }
}

struct Gen<'a> {
  r: Rng,
  w: World,
  s: Arc<Schema>,
  p: &'a Profile,
  steps: Vec<Step>,
  h: Id,
  tag: u64,
  uid: u64,
  g: usize,
  t: usize,
  tgt: BTreeMap<usize, usize>,
  proj: BTreeMap<usize, Nodes>,
  touched: BTreeMap<usize, Vec<Id>>,
  doomed: BTreeSet<usize>,
  force: bool,
  handles: BTreeMap<usize, Vec<Id>>,
}

pub fn generate(schema: &Arc<Schema>, p: &Profile, seed: u64) -> History {
  let mut g = Gen {
    r: Rng::new(seed),
    w: World::new(schema.clone()),
    s: schema.clone(),
    p,
    steps: vec![],
    h: 0,
    tag: 0,
    uid: 0,
    g: 0,
    t: 0,
    tgt: BTreeMap::new(),
    proj: BTreeMap::new(),
    touched: BTreeMap::new(),
    doomed: BTreeSet::new(),
    force: false,
    handles: BTreeMap::new(),
  };
  let n = g.r.range(p.steps.0, p.steps.1);
  g.new_graph();
  let mut guard = 0;
  while g.steps.len() < n && guard < 6 * n {
    guard += 1;
    g.round();
  }
  // mostly finish what is open
  let ts: Vec<usize> = g.w.trans.keys().copied().collect();
  for t in ts {
    if g.r.p(0.7) {
      g.commit(t);
    }
  }
  History { schema: schema.name.to_string(), steps: g.steps }
}

impl Gen<'_> {
  fn push(&mut self, s: Step) -> bool {
    match advance(&mut self.w, &s) {
      Err(_) => false,
      Ok(_) => {
        self.steps.push(s);
        let w = &self.w;
        self.tgt.retain(|t, _| w.trans.contains_key(t));
        self.proj.retain(|t, _| w.trans.contains_key(t));
        self.touched.retain(|t, _| w.trans.contains_key(t));
        self.doomed.retain(|t| w.trans.contains_key(t));
        true
      },
    }
  }
  fn uid(&mut self) -> u64 {
    self.uid += 1;
    self.uid
  }
  fn handle(&mut self) -> Id {
    self.h += 1;
    self.h
  }
  fn new_graph(&mut self) {
    let g = self.g;
    self.g += 1;
    let gs: Vec<usize> = self.w.graphs.keys().copied().collect();
    let ctx = match self.r.pick(&gs) {
      Some(o) if self.r.p(0.75) => CtxSel::Of(*o),
      _ => CtxSel::New { default: self.r.p(0.3) },
    };
    self.push(Step::NewGraph { g, ctx });
  }
  fn graph(&mut self) -> Option<usize> {
    let gs: Vec<usize> = self.w.graphs.keys().copied().collect();
    self.r.pick(&gs).copied()
  }

  fn round(&mut self) {
    if self.w.graphs.is_empty() {
      self.new_graph();
    }
    if let Some(t) = self.doomed.iter().next().copied() {
      return self.commit(t);
    }
    let p = self.p;
    let w = [p.commit, p.giveup, p.newgraph, p.switch, p.serde, p.dropgraph, 1.0];
    match self.r.weighted(&w) {
      0 => {
        if let Some(t) = self.open_trans() {
          self.commit(t)
        }
      },
      1 => {
        if let Some(t) = self.open_trans() {
          let how = self.r.below(2) as u8;
          self.push(Step::GiveUp { t, how });
        }
      },
      2 => {
        if self.w.graphs.len() < p.graphs {
          self.new_graph()
        }
      },
      3 => {
        let Some(g) = self.graph() else { return };
        let to = match self.graph() {
          Some(o) if self.r.p(0.4) => CtxSel::Of(o),
          _ => CtxSel::New { default: self.r.p(0.3) },
        };
        let uid = self.uid();
        if self.push(Step::Switch { g, to, uid, how: How::Native }) {
          let c = self.w.graphs[&g].ctx;
          let hs: Vec<Id> = self.w.graphs[&g].nodes.keys().copied().collect();
          self.handles.entry(c).or_default().extend(hs);
        }
      },
      4 => {
        let Some(g) = self.graph() else { return };
        let keep = if self.r.p(0.3) && self.w.graphs.len() < p.graphs {
          self.g += 1;
          Some(self.g - 1)
        } else {
          None
        };
        // a copy that stays beside the original holds payloads with the same tags
        let (uid, mode) = (self.uid(), self.r.below(6) as u8);
        let craft = if self.r.p(0.4) { Some(self.craft(g)) } else { None };
        if self.push(Step::SerDe { g, uid, mode, keep, how: How::Native, craft }) {
          let gr = &self.w.graphs[&keep.unwrap_or(g)];
          let c = gr.ctx;
          let hs: Vec<Id> = self.w.known.iter().filter(|x| *x.1 == c).map(|x| *x.0).collect::<BTreeSet<_>>().into_iter().collect();
          self.handles.entry(c).or_default().extend(hs);
        }
      },
      5 => {
        if self.w.graphs.len() > 1 {
          let Some(g) = self.graph() else { return };
          let mode = if self.r.p(0.6) { self.r.below(2) } else { self.r.range(2, 7) } as u8;
          self.push(Step::DropGraph { g, mode });
        }
      },
      _ => self.op_round(),
    }
  }

  fn craft(&mut self, g: usize) -> Craft {
    let order = if self.r.p(0.8) { self.r.next() } else { 0 };
    let shift = *self.r.pick(&[0, 0, 1, 7, 1000, 1 << 33, (1 << 50) + 3]).unwrap();
    let mut less = vec![];
    let nodes = self.w.graphs[&g].nodes.clone();
    let links: Vec<Triple> = triples(&nodes).into_iter().filter(|t| self.s.is_bidi(t.2, t.3)).collect();
    let mut other: BTreeSet<(Id, Id)> = BTreeSet::new();
    if self.r.p(0.7) {
      let share = *self.r.pick(&[0.2, 0.7]).unwrap();
      for (x, y, v, f) in links {
        let Some(m) = nodes.get(&y) else { continue };
        // it comes back if the opposite knows only this field for it
        let only = (0..m.links.len()).any(|q| m.links[q].contains(x) && self.s.opp_in(m.var, q, v) == [f]);
        if x != y && only && !other.contains(&(y, x)) && !other.contains(&(x, y)) && self.r.p(share) {
          other.insert((x, y));
          less.push((x, f, y));
        }
      }
    }
    Craft { order, shift, less }
  }
  fn open_trans(&mut self) -> Option<usize> {
    let ts: Vec<usize> = self.w.trans.keys().copied().collect();
    self.r.pick(&ts).copied()
  }

  fn target(&mut self, t: usize) -> Option<usize> {
    let ctx = self.w.trans[&t].ctx;
    if let Some(g) = self.tgt.get(&t) {
      if self.w.graphs.get(g).is_some_and(|g| g.ctx == ctx) {
        return Some(*g);
      }
    }
    let gs: Vec<usize> = self.w.graphs.iter().filter(|x| x.1.ctx == ctx).map(|x| *x.0).collect();
    let g = self.r.pick(&gs).copied()?;
    self.tgt.insert(t, g);
    Some(g)
  }
  /// what the commit would do if all that is allocated never came to be
  fn peek(&mut self, t: usize, g: usize) -> Result<CommitInfo, Stop> {
    let a = std::mem::take(&mut self.w.trans.get_mut(&t).unwrap().allocs);
    let r = self.w.commit(t, g);
    self.w.trans.get_mut(&t).unwrap().allocs = a;
    r
  }

  fn commit(&mut self, t: usize) {
    // misuse: another context
    if self.r.p(self.p.misuse) {
      if let Some(g) = self.graph() {
        if self.push(Step::Commit { t, g, checks: None }) {
          return;
        }
      }
    }
    let Some(mut g) = self.target(t) else {
      let how = self.r.below(2) as u8;
      self.push(Step::GiveUp { t, how });
      return;
    };
    // sometimes another graph of the same context
    if self.r.p(0.03) {
      let ctx = self.w.trans[&t].ctx;
      let gs: Vec<usize> = self.w.graphs.iter().filter(|x| x.1.ctx == ctx).map(|x| *x.0).collect();
      g = *self.r.pick(&gs).unwrap_or(&g);
    }
    if !self.w.trans[&t].allocs.is_empty() && !self.r.p(self.p.misuse * 3.0) {
      let hs: Vec<Id> = self.w.trans[&t].allocs.keys().copied().collect();
      for h in hs {
        self.fill(t, h);
      }
    }
    let e = self.w.commit(t, g);
    let mut checks = None;
    match &e {
      Ok(info) => {
        if self.r.p(self.p.checks) {
          checks = Some(self.checks(Some(info)));
        }
      },
      Err(Stop::Panic(r)) if self.doomed.contains(&t) || matches!(r, Reason::ForeignCtx | Reason::Unfilled) || self.r.p(self.p.probe) => {
        if self.r.p(self.p.checks) {
          checks = Some(self.checks(None));
        }
      },
      Err(_) => {
        let how = self.r.below(2) as u8;
        self.push(Step::GiveUp { t, how });
        return;
      },
    }
    let pairs: Vec<(Id, Id)> = self.w.trans[&t].redir.iter().chain(&self.w.trans[&t].redir_all).map(|x| (x.0, x.1)).collect();
    let ctx = self.w.trans.get(&t).map(|t| t.ctx);
    let ext: Vec<Id> = self.w.trans[&t].extended.iter().copied().collect();
    if !self.push(Step::Commit { t, g, checks }) {
      let how = self.r.below(2) as u8;
      self.push(Step::GiveUp { t, how });
    } else if let (Some(c), Ok(_)) = (ctx, e) {
      self.handles.entry(c).or_default().extend(ext);
    } else if self.r.p(self.p.aftermath) {
      self.aftermath(ctx, &pairs);
    }
  }
  /// what happens to another graph right after a commit that panicked
  fn aftermath(&mut self, ctx: Option<usize>, pairs: &[(Id, Id)]) {
    let Some(g) = self.graph() else { return };
    let t = self.t;
    self.t += 1;
    if !self.push(Step::Begin { t, g }) {
      return;
    }
    self.tgt.insert(t, g);
    let Ok(i) = self.peek(t, g) else { return };
    self.proj.insert(t, i.nodes);
    let own = self.nodes(t);
    let mut pool: Vec<Id> = own.clone();
    if ctx == Some(self.w.trans[&t].ctx) {
      let v: Vec<Id> = pairs.iter().flat_map(|p| [p.0, p.1]).filter(|h| *h != 0 && self.known(t, *h)).collect();
      // as often as all others together
      for h in v.iter().cycle().take(if v.is_empty() { 0 } else { own.len().max(v.len()) }) {
        pool.push(*h);
      }
    }
    for _ in 0..self.r.range(1, 3) {
      let (Some(a), Some(b)) = (self.r.pick(&pool).copied(), self.r.pick(&pool).copied()) else { break };
      if a == b {
        continue;
      }
      let k = if self.r.p(0.5) { OpK::Redirect { a, b } } else { OpK::RedirectAll { a, b } };
      self.batch(t, vec![k]);
    }
    if self.r.p(0.7) {
      self.commit(t);
    }
  }
  fn checks(&mut self, info: Option<&CommitInfo>) -> Vec<Chk> {
    let n = self.r.range(0, 4);
    let mut v = vec![];
    for i in 0..n {
      let name = if self.r.p(0.5) { "c".to_string() } else { format!("c{i}") };
      let kind = self.r.below(3) as u8;
      if v.iter().any(|c: &Chk| c.kind == kind && c.name == name) {
        continue;
      }
      let before = if self.r.p(0.35) { self.r.range(1, 3) as u8 } else { 0 };
      v.push(Chk { kind, name, removed: self.r.p(0.2), fail: None, before });
    }
    if let (Some(info), false, true) = (info, v.is_empty(), self.r.p(self.p.probe)) {
      let hs: Vec<Id> = info.nodes.keys().copied().filter(|h| !self.w.trans.values().any(|t| t.extended.contains(h))).collect();
      if let Some(h) = self.r.pick(&hs).copied() {
        let i = self.r.below(v.len());
        v[i].fail = Some(h);
        if check_verdict(&self.s, info, &v).is_none() {
          v[i].fail = None;
        }
      }
    }
    v
  }

  // ------------------------------------------------------------ choices

  fn known(&self, t: usize, h: Id) -> bool {
    self.w.known.get(&h) == Some(&self.w.trans[&t].ctx)
  }
  fn nodes(&self, t: usize) -> Vec<Id> {
    self.proj[&t].keys().copied().filter(|h| self.known(t, *h)).collect()
  }
  fn old_nodes(&self, t: usize) -> Vec<Id> {
    let n = &self.w.trans[&t].new;
    self.nodes(t).into_iter().filter(|h| !n.contains_key(h)).collect()
  }
  fn subject(&mut self, t: usize) -> Option<Id> {
    let all = self.nodes(t);
    if self.r.p(0.4) {
      let tc: Vec<Id> = self.touched.get(&t).map(|v| v.iter().copied().filter(|h| all.contains(h)).collect()).unwrap_or_default();
      if let Some(h) = self.r.pick(&tc) {
        return Some(*h);
      }
    }
    if self.r.p(0.25) {
      // somebody that others point at
      let mut into: BTreeSet<Id> = BTreeSet::new();
      for n in self.proj[&t].values() {
        for l in &n.links {
          into.extend(l.ids());
        }
      }
      let v: Vec<Id> = all.iter().copied().filter(|h| into.contains(h)).collect();
      if let Some(h) = self.r.pick(&v) {
        return Some(*h);
      }
    }
    self.r.pick(&all).copied()
  }
  fn absent(&mut self, t: usize) -> Option<Id> {
    let ctx = self.w.trans[&t].ctx;
    let proj = &self.proj[&t];
    let tr = &self.w.trans[&t];
    let v: Vec<Id> = self
      .handles
      .get(&ctx)
      .map(|v| v.iter().copied().filter(|h| !proj.contains_key(h) && !tr.new.contains_key(h) && !tr.allocs.contains_key(h)).collect())
      .unwrap_or_default();
    self.r.pick(&v).copied().filter(|h| self.known(t, *h))
  }
  /// a target for field f of a node of variant v
  fn link(&mut self, t: usize, v: usize, f: usize, x: Option<Id>) -> Id {
    let bidi = self.s.is_bidi(v, f);
    if !bidi && self.r.p(self.p.dangling) {
      if let Some(h) = self.absent(t) {
        return h;
      }
    }
    let legal = !self.r.p(self.p.illegal);
    let allowed = self.s.allowed[v][f].clone().filter(|_| legal);
    let mut cand: Vec<(Id, usize)> = vec![];
    for (h, n) in &self.proj[&t] {
      if self.known(t, *h) {
        cand.push((*h, n.var));
      }
    }
    for (h, v) in &self.w.trans[&t].allocs {
      cand.push((*h, v.unwrap_or(usize::MAX)));
    }
    if let Some(a) = &allowed {
      cand.retain(|c| c.1 == usize::MAX || a.contains(&c.1));
    }
    if bidi {
      // only some variants take part in the declaration, prefer them
      let part: Vec<(Id, usize)> = cand.iter().copied().filter(|c| c.1 != usize::MAX && !self.s.opp_in(v, f, c.1).is_empty()).collect();
      if !part.is_empty() && self.r.p(0.85) {
        cand = part;
      }
    }
    let risky = self.r.p(self.p.illegal);
    for _ in 0..5 {
      let Some((h, w)) = self.r.pick(&cand).copied() else { return 0 };
      if !bidi || risky || w == usize::MAX {
        return h;
      }
      let c = self.s.opp_in(v, f, w);
      if c.is_empty() {
        return h;
      }
      let Some(n) = self.proj[&t].get(&h) else { return h };
      let holds = x.is_some_and(|x| c.iter().any(|g| n.links[*g].contains(x)));
      let room = c.len() == 1
        && match &n.links[c[0]] {
          Link::D(z) => *z == 0,
          _ => true,
        };
      if holds || room {
        return h;
      }
    }
    0
  }
  fn any_link(&mut self, t: usize, v: usize, f: usize, x: Option<Id>) -> Id {
    if self.s.vars[v].fields[f].kind == Kind::Vec && self.r.p(0.12) {
      return 0;
    }
    self.link(t, v, f, x)
  }
  fn node(&mut self, t: usize, var: usize, h: Option<Id>) -> MNode {
    let mut links = vec![];
    let dense = *self.r.pick(&[0.15, 0.5, 0.8]).unwrap();
    for f in 0..self.s.nfields(var) {
      let kind = self.s.vars[var].fields[f].kind;
      let on = self.r.p(dense);
      links.push(match kind {
        Kind::Direct => Link::D(if on { self.link(t, var, f, h) } else { 0 }),
        Kind::Vec => {
          let n = if on { self.r.range(0, self.p.wide) } else { 0 };
          Link::V((0..n).map(|_| self.any_link(t, var, f, h)).collect())
        },
        _ => {
          let n = if on { self.r.range(0, self.p.wide - 1) } else { 0 };
          let mut s: BTreeSet<Id> = (0..n).map(|_| self.link(t, var, f, h)).filter(|x| *x != 0).collect();
          if self.r.p(self.p.empties) && !self.s.is_bidi(var, f) {
            s.insert(0);
          }
          Link::S(s)
        },
      });
    }
    self.tag += 1;
    MNode { var, tag: self.tag, val: self.r.range(0, 40) as i64 - 8, links }
  }
  fn edits(&mut self, t: usize, h: Id, n: usize) -> (usize, Vec<Edit>) {
    let cur = self.proj[&t][&h].clone();
    self.edits_of(t, h, cur, n)
  }
  fn edits_of(&mut self, t: usize, h: Id, mut cur: MNode, n: usize) -> (usize, Vec<Edit>) {
    let v = cur.var;
    let mut e = vec![];
    for _ in 0..n {
      let nf = self.s.nfields(v);
      if nf == 0 || self.r.p(0.12) {
        e.push(Edit::Val(self.r.range(0, 90) as i64));
        continue;
      }
      let f = self.r.below(nf);
      let ed = match &cur.links[f] {
        Link::D(_) => Edit::D(f, if self.r.p(0.3) { 0 } else { self.link(t, v, f, Some(h)) }),
        Link::V(x) => match self.r.below(6) {
          0 | 1 => Edit::VPush(f, self.any_link(t, v, f, Some(h))),
          2 if !x.is_empty() => {
            let i = self.r.below(x.len());
            Edit::VSet(f, i, self.any_link(t, v, f, Some(h)))
          },
          3 if !x.is_empty() => {
            let i = self.r.below(x.len());
            Edit::VDel(f, i)
          },
          4 if self.r.p(0.3) => Edit::VClear(f),
          5 if !x.is_empty() => {
            // the same target once more
            let y = x[self.r.below(x.len())];
            Edit::VPush(f, y)
          },
          _ => Edit::VPush(f, self.any_link(t, v, f, Some(h))),
        },
        Link::S(x) => {
          let xs: Vec<Id> = x.iter().copied().collect();
          match self.r.below(5) {
            0 | 1 if !xs.is_empty() => {
              let y = xs[self.r.below(xs.len())];
              Edit::SDel(f, y)
            },
            2 if self.r.p(0.2) => Edit::SClear(f),
            _ => {
              let y = self.link(t, v, f, Some(h));
              if y == 0 && (self.s.is_bidi(v, f) || !self.r.p(self.p.empties)) {
                continue;
              }
              Edit::SIns(f, y)
            },
          }
        },
      };
      ed.apply(&mut cur);
      e.push(ed);
    }
    (v, e)
  }

  // ------------------------------------------------------------ operations

  /// Add the operations as a unit if the model knows what the commit must then do.
  fn batch(&mut self, t: usize, ops: Vec<OpK>) -> bool {
    let Some(g) = self.target(t) else { return false };
    let save = self.w.trans[&t].clone();
    let mut graphs: Vec<(usize, MGraph)> = vec![];
    let mut defs = vec![];
    let mut added = vec![];
    let mut good = true;
    for k in ops {
      let op = Op { uid: self.uid(), k };
      if let OpK::Merge { g, .. } = &op.k {
        if let Some(m) = self.w.graphs.get(g) {
          graphs.push((*g, m.clone()));
        }
      }
      match self.w.op(t, &op) {
        Ok(_) => {
          defs.extend(op.defines());
          added.push(op);
        },
        Err(_) => {
          good = false;
          break;
        },
      }
    }
    let mut doomed = false;
    if good {
      match self.peek(t, g) {
        Ok(i) => {
          self.proj.insert(t, i.nodes);
        },
        Err(Stop::Panic(_)) if self.force || self.r.p(self.p.probe) => doomed = true,
        Err(_) => good = false,
      }
    }
    if !good {
      self.w.trans.insert(t, save);
      for (g, m) in graphs {
        self.w.graphs.insert(g, m);
      }
      for h in defs {
        self.w.known.remove(&h);
      }
      return false;
    }
    let ctx = self.w.trans[&t].ctx;
    for op in added {
      let tc = self.touched.entry(t).or_default();
      tc.extend(op.subject());
      for h in op.defines() {
        if self.w.known.contains_key(&h) {
          self.handles.entry(ctx).or_default().push(h);
          tc.push(h);
        }
      }
      self.steps.push(Step::Op { t, op });
    }
    if doomed {
      self.doomed.insert(t);
    }
    true
  }
  fn var(&mut self) -> usize {
    self.r.below(self.s.vars.len())
  }
  fn fill(&mut self, t: usize, h: Id) {
    let Some(typ) = self.w.trans[&t].allocs.get(&h).copied() else { return };
    for i in 0..4 {
      let var = match typ {
        Some(v) => v,
        None => self.var(),
      };
      let mut node = self.node(t, var, Some(h));
      if i == 3 {
        node.links = self.s.vars[var].fields.iter().map(|f| f.kind.empty()).collect();
      }
      let untyped = typ.is_none() || self.r.p(0.1);
      if self.batch(t, vec![OpK::Fill { h, node, untyped }]) {
        return;
      }
    }
    self.batch(t, vec![OpK::Remove { h }]);
  }
  fn change(&mut self, h: Id, edits: Vec<Edit>, var: usize) -> OpK {
    let typed = if self.r.p(self.p.typed) { Some(var) } else { None };
    let tw = self.p.mutate + self.p.update;
    if self.r.p(self.p.mutate / tw) {
      OpK::Mutate { h, edits, typed }
    } else {
      OpK::Update { h, edits, typed }
    }
  }

  fn op_round(&mut self) {
    let p = self.p;
    let n = self.w.trans.len();
    let t = if n == 0 || (n < p.open && self.r.p(0.15)) {
      let Some(g) = self.graph() else { return };
      let t = self.t;
      self.t += 1;
      self.push(Step::Begin { t, g });
      self.tgt.insert(t, g);
      t
    } else {
      self.open_trans().unwrap()
    };
    let Some(g) = self.target(t) else {
      self.push(Step::GiveUp { t, how: 0 });
      return;
    };
    match self.peek(t, g) {
      Ok(i) => {
        self.proj.insert(t, i.nodes);
      },
      Err(_) => {
        // overtaken by another transaction
        return self.commit(t);
      },
    }
    let size = self.proj[&t].len();
    let big = if size > p.size { 0.15 } else { 1.0 };
    let small = if size < 3 { 0.2 } else { 1.0 };
    let lots = if size > p.size { 2.0 } else { 1.0 };
    let bidi = if self.s.has_bidi { 1.0 } else { 0.0 };
    let allocs: Vec<Id> = self.w.trans[&t].allocs.keys().copied().collect();
    let w = [
      p.insert * big,
      p.alloc * big,
      if allocs.is_empty() { 0.0 } else { 2.0 },
      p.remove * small * lots,
      p.mutate,
      p.update,
      p.redirect * small,
      p.redirect_all * small,
      p.extend * big,
      p.merge,
      p.pair * bidi,
      p.swap * bidi,
      p.replace * small,
      p.cluster * big,
      p.variant,
      p.cancel * big,
      p.misuse,
      p.looped,
      p.again,
      p.burst,
      p.mass,
    ];
    match self.r.weighted(&w) {
      0 => {
        let v = self.var();
        let node = self.node(t, v, None);
        let h = self.handle();
        self.batch(t, vec![OpK::Insert { h, node }]);
      },
      1 => {
        let v = self.var();
        let h = self.handle();
        let var = if self.r.p(0.6) { Some(v) } else { None };
        let mac = self.r.p(p.typed);
        self.batch(t, vec![OpK::Alloc { h, var, mac }]);
      },
      2 => {
        let h = *self.r.pick(&allocs).unwrap();
        self.fill(t, h);
      },
      3 => {
        let Some(h) = self.subject(t) else { return };
        self.batch(t, vec![OpK::Remove { h }]);
      },
      4 | 5 => {
        let Some(h) = self.subject(t) else { return };
        let n = self.r.range(1, 4);
        let (v, e) = self.edits(t, h, n);
        let k = self.change(h, e, v);
        self.batch(t, vec![k]);
      },
      6 => self.redirect(t, false),
      7 => self.redirect(t, true),
      8 => {
        let n = self.r.range(1, 4);
        let mut items = vec![];
        for _ in 0..n {
          let v = self.var();
          let node = self.node(t, v, None);
          items.push((self.handle(), node));
        }
        self.batch(t, vec![OpK::Extend { items }]);
      },
      9 => {
        let ctx = self.w.trans[&t].ctx;
        let gs: Vec<usize> = self.w.graphs.iter().filter(|x| *x.0 != g && x.1.ctx == ctx).map(|x| *x.0).collect();
        let Some(m) = self.r.pick(&gs).copied() else {
          if self.w.graphs.len() < p.graphs {
            let n = self.g;
            self.g += 1;
            self.push(Step::NewGraph { g: n, ctx: CtxSel::Of(g) });
          }
          return;
        };
        if self.w.graphs[&m].nodes.is_empty() && self.r.p(0.8) {
          // put something there first
          let t2 = self.t;
          self.t += 1;
          if self.push(Step::Begin { t: t2, g: m }) {
            self.tgt.insert(t2, m);
            self.proj.insert(t2, Nodes::new());
            let n = self.r.range(1, 3);
            for _ in 0..n {
              self.cluster(t2);
            }
            self.commit(t2);
          }
          return;
        }
        if self.batch(t, vec![OpK::Merge { g: m, how: How::Native }]) {
          for (_, x) in self.tgt.iter_mut() {
            if *x == m {
              *x = g;
            }
          }
        }
      },
      10 => self.pair(t),
      11 => self.swap(t),
      12 => self.replace(t),
      13 => self.cluster(t),
      14 => {
        let Some(h) = self.subject(t) else { return };
        let v = self.var();
        let mut node = self.node(t, v, Some(h));
        if self.r.p(0.4) {
          node.links = self.s.vars[v].fields.iter().map(|f| f.kind.empty()).collect();
        }
        let mut edits = vec![Edit::Replace(node)];
        if self.r.p(0.3) {
          edits.push(Edit::Val(5));
        }
        let k = if self.r.p(0.5) { OpK::Mutate { h, edits, typed: None } } else { OpK::Update { h, edits, typed: None } };
        self.batch(t, vec![k]);
      },
      15 => {
        // create something, link to it, and take it back
        let h = self.handle();
        let v = self.var();
        let mut ops = vec![];
        if self.r.p(0.5) {
          let node = self.node(t, v, None);
          ops.push(OpK::Insert { h, node });
        } else {
          ops.push(OpK::Alloc { h, var: Some(v), mac: self.r.p(p.typed) });
        }
        for _ in 0..self.r.range(0, 3) {
          if let Some(x) = self.subject(t) {
            let xv = self.proj[&t][&x].var;
            if self.s.nfields(xv) == 0 {
              continue;
            }
            let f = self.r.below(self.s.nfields(xv));
            let e = match self.s.vars[xv].fields[f].kind {
              Kind::Direct => Edit::D(f, h),
              Kind::Vec => Edit::VPush(f, h),
              _ => Edit::SIns(f, h),
            };
            let k = self.change(x, vec![e], xv);
            ops.push(k);
          }
        }
        ops.push(OpK::Remove { h });
        self.batch(t, ops);
      },
      16 => self.misuse(t),
      18 => self.again(t, g),
      20 => self.mass(t),
      19 => {
        // one node changed many times over
        let Some(h) = self.subject(t) else { return };
        for _ in 0..self.r.range(2, 9) {
          let Some(cur) = self.proj[&t].get(&h).cloned() else { return };
          let n = self.r.range(0, 2);
          let (v, e) = self.edits_of(t, h, cur, n);
          let k = self.change(h, e, v);
          self.batch(t, vec![k]);
        }
      },
      _ => {
        let ns = self.old_nodes(t);
        let Some(a) = self.r.pick(&ns).copied() else { return };
        let mut cyc = vec![a];
        for _ in 0..self.r.range(0, 3) {
          let b = *self.r.pick(&ns).unwrap();
          if !cyc.contains(&b) {
            cyc.push(b);
          }
        }
        let all = self.r.p(0.5);
        let mut ops: Vec<OpK> = (0..cyc.len())
          .map(|i| {
            let (a, b) = (cyc[i], cyc[(i + 1) % cyc.len()]);
            if all {
              OpK::RedirectAll { a, b }
            } else {
              OpK::Redirect { a, b }
            }
          })
          .collect();
        self.shuffle(&mut ops);
        // always worth a try
        self.force = true;
        self.batch(t, ops);
        self.force = false;
      },
    }
  }

  fn shuffle<T>(&mut self, v: &mut [T]) {
    for i in (1..v.len()).rev() {
      let j = self.r.below(i + 1);
      v.swap(i, j);
    }
  }

  fn redirect(&mut self, t: usize, all: bool) {
    let olds = if all { self.nodes(t) } else { self.old_nodes(t) };
    let tr = &self.w.trans[&t];
    let used: BTreeSet<Id> = (if all { &tr.redir_all } else { &tr.redir }).iter().map(|x| x.0).collect();
    let free: Vec<Id> = olds.iter().copied().filter(|h| !used.contains(h)).collect();
    if free.is_empty() {
      return;
    }
    let mk = |a, b| if all { OpK::RedirectAll { a, b } } else { OpK::Redirect { a, b } };
    let n = if self.p.chain > 4 && self.r.p(0.5) { self.r.range(1, self.p.chain) } else { *self.r.pick(&[1, 1, 1, 2, 2, 3, 4]).unwrap() };
    let mut chain: Vec<Id> = vec![];
    for _ in 0..n {
      let mut h = *self.r.pick(&free).unwrap();
      if self.r.p(0.06) {
        h = self.absent(t).filter(|h| !used.contains(h)).unwrap_or(h);
      }
      if !chain.contains(&h) {
        chain.push(h);
      }
    }
    let mut pre = vec![];
    let ends = self.nodes(t);
    let end = if self.r.p(0.05) {
      // nothing
      0
    } else if let (true, Some(h)) = (self.r.p(0.06), self.absent(t)) {
      if chain.contains(&h) {
        return;
      }
      h
    } else if self.r.p(0.3) {
      // a node that the transaction brings along
      let h = self.handle();
      let v = match self.proj[&t].get(chain.last().unwrap()) {
        Some(n) => n.var,
        None => self.var(),
      };
      let mut node = self.node(t, v, None);
      if self.s.has_bidi {
        node.links = self.s.vars[v].fields.iter().map(|f| f.kind.empty()).collect();
      }
      pre.push(OpK::Insert { h, node });
      h
    } else {
      let same: Vec<Id> = ends.iter().copied().filter(|h| Some(self.proj[&t][h].var) == self.proj[&t].get(&chain[0]).map(|n| n.var)).collect();
      let pool = if self.r.p(0.7) { same } else { ends };
      match self.r.pick(&pool).copied() {
        Some(h) if !chain.contains(&h) => h,
        _ => return,
      }
    };
    let mut ops: Vec<OpK> = vec![];
    let star = self.r.p(0.25);
    for i in 0..chain.len() {
      let to = if star || i + 1 == chain.len() { end } else { chain[i + 1] };
      ops.push(mk(chain[i], to));
    }
    self.shuffle(&mut ops);
    pre.extend(ops);
    if self.r.p(0.35) {
      for h in &chain {
        if self.r.p(0.8) {
          pre.push(OpK::Remove { h: *h });
        }
      }
    }
    self.batch(t, pre);
  }

  /// targets for field f of variant v that never lead to a conflict
  fn easy(&self, by: &[Vec<Id>], v: usize, f: usize) -> Vec<Id> {
    let set = |w: usize, g: usize| !matches!(self.s.vars[w].fields[g].kind, Kind::Direct | Kind::Vec);
    let mut r = vec![];
    for (w, hs) in by.iter().enumerate() {
      if self.s.allowed[v][f].as_ref().is_some_and(|a| !a.contains(&w)) {
        continue;
      }
      let c = self.s.opp_in(v, f, w);
      if c.is_empty() || (c.len() == 1 && set(w, c[0])) {
        r.extend(hs);
      }
    }
    r
  }
  /// one kind of operation, hundreds of times in one transaction
  fn mass(&mut self, t: usize) {
    let n = self.r.range(self.p.many / 6, self.p.many);
    let mut by: Vec<Vec<Id>> = vec![vec![]; self.s.vars.len()];
    for h in self.nodes(t) {
      by[self.proj[&t][&h].var].push(h);
    }
    let pools: Vec<Vec<Vec<Id>>> = (0..self.s.vars.len()).map(|v| (0..self.s.nfields(v)).map(|f| self.easy(&by, v, f)).collect()).collect();
    let mut all: Vec<Id> = by.concat();
    let size = all.len();
    let few = size < self.p.many / 3;
    let w = [if size > 2 * self.p.many { 0.0 } else if few { 3.0 } else { 1.0 }, 0.6, 1.0, if few { 0.0 } else { 0.5 }, if few { 0.1 } else { 1.2 }];
    match self.r.weighted(&w) {
      0 => {
        // new nodes that link to a few hubs and to one another's elders
        let hub = self.r.p(0.6);
        let mut hubs: BTreeMap<(usize, usize), Id> = BTreeMap::new();
        let mut ns = vec![];
        for _ in 0..n {
          let v = self.var();
          let mut links: Vec<Link> = self.s.vars[v].fields.iter().map(|f| f.kind.empty()).collect();
          for (f, l) in links.iter_mut().enumerate() {
            let pool = &pools[v][f];
            let k = if matches!(l, Link::D(_)) { 1 } else { self.r.below(4) };
            for _ in 0..k {
              if !pool.is_empty() && self.r.p(0.5) {
                let x = *self.r.pick(pool).unwrap();
                let x = if hub && self.r.p(0.7) { *hubs.entry((v, f)).or_insert(x) } else { x };
                put(l, x);
              }
            }
          }
          self.tag += 1;
          ns.push((self.handle(), MNode { var: v, tag: self.tag, val: self.r.range(0, 40) as i64, links }));
        }
        let ops = match self.r.below(3) {
          0 => ns.into_iter().map(|(h, node)| OpK::Insert { h, node }).collect(),
          1 => vec![OpK::Extend { items: ns }],
          _ => {
            let untyped = self.r.p(0.5);
            let mut v: Vec<OpK> =
              ns.iter().map(|(h, n)| OpK::Alloc { h: *h, var: if untyped { None } else { Some(n.var) }, mac: false }).collect();
            self.shuffle(&mut ns);
            v.extend(ns.into_iter().map(|(h, node)| OpK::Fill { h, node, untyped }));
            v
          },
        };
        self.batch(t, ops);
      },
      1 => {
        // one node with very many links
        let cs: Vec<(usize, usize)> = (0..self.s.vars.len())
          .flat_map(|v| (0..self.s.nfields(v)).map(move |f| (v, f)))
          .filter(|(v, f)| self.s.vars[*v].fields[*f].kind != Kind::Direct && !pools[*v][*f].is_empty())
          .collect();
        let Some((v, f)) = self.r.pick(&cs).copied() else { return };
        let mut links: Vec<Link> = self.s.vars[v].fields.iter().map(|f| f.kind.empty()).collect();
        for _ in 0..n {
          let x = *self.r.pick(&pools[v][f]).unwrap();
          put(&mut links[f], x);
        }
        let k = if let (true, Some(h)) = (self.r.p(0.4), self.r.pick(&by[v]).copied()) {
          let e = match &links[f] {
            Link::V(x) => x.iter().map(|x| Edit::VPush(f, *x)).collect(),
            Link::S(x) => x.iter().map(|x| Edit::SIns(f, *x)).collect(),
            _ => vec![],
          };
          self.change(h, e, v)
        } else {
          self.tag += 1;
          OpK::Insert { h: self.handle(), node: MNode { var: v, tag: self.tag, val: 1, links } }
        };
        self.batch(t, vec![k]);
      },
      2 => {
        let mut ops = vec![];
        for _ in 0..n {
          let Some(h) = self.r.pick(&all).copied() else { return };
          let node = &self.proj[&t][&h];
          let v = node.var;
          let mut e = Edit::Val(self.r.range(0, 90) as i64);
          if self.s.nfields(v) > 0 && self.r.p(0.5) {
            let f = self.r.below(self.s.nfields(v));
            let bidi = self.s.is_bidi(v, f);
            match (self.r.pick(&pools[v][f]).copied(), &self.proj[&t][&h].links[f]) {
              (Some(x), Link::D(_)) if !bidi => e = Edit::D(f, x),
              (Some(x), Link::V(_)) => e = Edit::VPush(f, x),
              (Some(x), Link::S(_)) => e = Edit::SIns(f, x),
              _ => {},
            }
          }
          let k = self.change(h, vec![e], v);
          ops.push(k);
        }
        self.batch(t, ops);
      },
      3 => {
        self.shuffle(&mut all);
        all.truncate(n);
        self.batch(t, all.into_iter().map(|h| OpK::Remove { h }).collect());
      },
      _ => {
        let tr = &self.w.trans[&t];
        if !tr.redir.is_empty() || !tr.redir_all.is_empty() {
          return;
        }
        let deep = self.r.p(0.5);
        // of one variant, so that all stay of an allowed type
        let Some(mut c) = self.r.pick(&by).cloned().filter(|v| v.len() > 2) else { return };
        let is_all = self.r.p(0.5);
        if !is_all {
          let new = &self.w.trans[&t].new;
          c.retain(|h| !new.contains_key(h));
        }
        self.shuffle(&mut c);
        c.truncate(n.max(3));
        let Some(end) = c.pop() else { return };
        if c.is_empty() {
          return;
        }
        let mk = |a, b| if is_all { OpK::RedirectAll { a, b } } else { OpK::Redirect { a, b } };
        let mut ops: Vec<OpK> =
          (0..c.len()).map(|i| mk(c[i], if deep { c.get(i + 1).copied().unwrap_or(end) } else { end })).collect();
        if self.r.p(0.1) {
          ops.push(mk(end, c[0]));
          self.force = true;
        }
        match self.r.below(3) {
          0 => ops.reverse(),
          1 => self.shuffle(&mut ops),
          _ => {},
        }
        if self.r.p(0.3) {
          ops.extend(c.iter().map(|h| OpK::Remove { h: *h }));
        }
        self.batch(t, ops);
        self.force = false;
      },
    }
  }

  /// operations on what the transaction already removed, redirected or does not have yet
  fn again(&mut self, t: usize, g: usize) {
    let ctx = self.w.trans[&t].ctx;
    let removed: Vec<Id> = self.w.trans[&t].removed.iter().copied().filter(|h| self.w.graphs[&g].nodes.contains_key(h)).collect();
    let ops = match self.r.below(8) {
      0 => {
        let Some(h) = self.r.pick(&removed).copied() else { return };
        vec![OpK::Remove { h }]
      },
      1 | 2 => {
        // changes of a node that goes away in the end
        let h = match self.r.pick(&removed).copied() {
          Some(h) => h,
          None => {
            let olds = self.old_nodes(t);
            let Some(h) = self.r.pick(&olds).copied() else { return };
            if !self.batch(t, vec![OpK::Remove { h }]) {
              return;
            }
            h
          },
        };
        let Some(cur) = self.w.graphs[&g].nodes.get(&h).cloned() else { return };
        let n = self.r.range(0, 3);
        let (v, e) = self.edits_of(t, h, cur, n);
        vec![self.change(h, e, v)]
      },
      3 => {
        // redirects from or to a node that goes away, or that is not there
        let olds = self.nodes(t);
        let gone = if self.r.p(0.5) { self.r.pick(&removed).copied() } else { self.absent(t) };
        let (Some(x), Some(y)) = (gone, self.r.pick(&olds).copied()) else { return };
        let (a, b) = if self.r.p(0.5) { (x, y) } else { (y, x) };
        vec![if self.r.p(0.5) { OpK::Redirect { a, b } } else { OpK::RedirectAll { a, b } }]
      },
      4 => {
        // the same request once more
        let tr = &self.w.trans[&t];
        let (r, all) = (tr.redir.clone(), tr.redir_all.clone());
        if self.r.p(0.5) {
          let Some((a, b)) = self.r.pick(&r).copied() else { return };
          vec![OpK::Redirect { a, b }]
        } else {
          let Some((a, b)) = self.r.pick(&all).copied() else { return };
          vec![OpK::RedirectAll { a, b }]
        }
      },
      5 | 6 => {
        // changes of an allocated node before it is filled
        let h = self.handle();
        let var = self.var();
        let typed = self.r.p(0.5);
        let mut ops = vec![OpK::Alloc { h, var: if typed { Some(var) } else { None }, mac: self.r.p(self.p.typed) }];
        let node = self.node(t, var, None);
        for _ in 0..self.r.range(1, 3) {
          let n = self.r.range(0, 2);
          let (v, e) = self.edits_of(t, h, node.clone(), n);
          let k = self.change(h, e, v);
          ops.push(k);
        }
        ops.push(OpK::Fill { h, node, untyped: !typed });
        if self.r.p(0.2) {
          let i = self.r.range(1, ops.len());
          ops.insert(i, OpK::Remove { h });
        }
        ops
      },
      _ => {
        // a node of a graph that is merged only afterwards
        let gs: Vec<usize> = self.w.graphs.iter().filter(|x| *x.0 != g && x.1.ctx == ctx && !x.1.nodes.is_empty()).map(|x| *x.0).collect();
        let Some(m) = self.r.pick(&gs).copied() else { return };
        let hs: Vec<Id> = self.w.graphs[&m].nodes.keys().copied().collect();
        let h = *self.r.pick(&hs).unwrap();
        let cur = self.w.graphs[&m].nodes[&h].clone();
        let k = match self.r.below(4) {
          0 => OpK::Remove { h },
          1 => {
            let olds = self.nodes(t);
            let Some(b) = self.r.pick(&olds).copied() else { return };
            if self.r.p(0.5) {
              OpK::RedirectAll { a: h, b }
            } else {
              OpK::RedirectAll { a: b, b: h }
            }
          },
          _ => {
            let (v, e) = self.edits_of(t, h, cur, 2);
            self.change(h, e, v)
          },
        };
        if self.batch(t, vec![k, OpK::Merge { g: m, how: How::Native }]) {
          for (_, x) in self.tgt.iter_mut() {
            if *x == m {
              *x = g;
            }
          }
        }
        return;
      },
    };
    self.batch(t, ops);
  }

  /// a node takes the place of another one
  fn replace(&mut self, t: usize) {
    let olds = self.old_nodes(t);
    let Some(a) = self.r.pick(&olds).copied() else { return };
    let old = self.proj[&t][&a].clone();
    let b = self.handle();
    let mut node = if self.r.p(0.5) { self.node(t, old.var, None) } else { old.clone() };
    self.tag += 1;
    node.tag = self.tag;
    if self.s.has_bidi {
      for f in 0..node.links.len() {
        if self.s.is_bidi(node.var, f) && self.r.p(0.7) {
          node.links[f] = self.s.vars[node.var].fields[f].kind.empty();
        }
      }
    }
    let mut ops = vec![OpK::Insert { h: b, node }];
    ops.push(if self.r.p(0.5) { OpK::Redirect { a, b } } else { OpK::RedirectAll { a, b } });
    if self.r.p(0.8) {
      ops.push(OpK::Remove { h: a });
    }
    self.batch(t, ops);
  }

  /// several new nodes that link to one another
  fn cluster(&mut self, t: usize) {
    let n = self.r.range(2, 4);
    let mut ops = vec![];
    let mut hs = vec![];
    for _ in 0..n {
      let h = self.handle();
      let v = self.var();
      let typed = self.r.p(0.5);
      ops.push(OpK::Alloc { h, var: if typed { Some(v) } else { None }, mac: self.r.p(self.p.typed) });
      hs.push((h, v, typed));
    }
    let mut nodes: Vec<MNode> = vec![];
    for (_, v, _) in &hs {
      self.tag += 1;
      let links = self.s.vars[*v].fields.iter().map(|f| f.kind.empty()).collect();
      nodes.push(MNode { var: *v, tag: self.tag, val: self.r.range(0, 9) as i64, links });
    }
    for _ in 0..self.r.range(1, 5) {
      let (i, j) = (self.r.below(n), self.r.below(n));
      let (v, w) = (hs[i].1, hs[j].1);
      if self.s.nfields(v) == 0 {
        continue;
      }
      let f = self.r.below(self.s.nfields(v));
      if self.s.allowed[v][f].as_ref().is_some_and(|a| !a.contains(&w)) && !self.r.p(self.p.illegal) {
        continue;
      }
      put(&mut nodes[i].links[f], hs[j].0);
      let c = self.s.opp_in(v, f, w);
      if let Some(g) = self.r.pick(&c).copied() {
        if self.r.p(0.5) || c.len() > 1 {
          put(&mut nodes[j].links[g], hs[i].0);
        }
      }
    }
    let mut fills: Vec<OpK> =
      hs.iter().zip(nodes).map(|((h, _, typed), node)| OpK::Fill { h: *h, node, untyped: !typed }).collect();
    self.shuffle(&mut fills);
    ops.extend(fills);
    self.batch(t, ops);
  }

  /// connect two nodes through a bidirectional declaration, freeing what is in the way
  fn pair(&mut self, t: usize) {
    let Some(x) = self.subject(t) else { return };
    let v = self.proj[&t][&x].var;
    let fs: Vec<usize> = (0..self.s.nfields(v)).filter(|f| self.s.is_bidi(v, *f)).collect();
    let Some(f) = self.r.pick(&fs).copied() else { return };
    let ys: Vec<Id> = self.nodes(t).into_iter().filter(|y| !self.s.opp_in(v, f, self.proj[&t][y].var).is_empty()).collect();
    let Some(y) = self.r.pick(&ys).copied() else { return };
    let ny = self.proj[&t][&y].clone();
    let c = self.s.opp_in(v, f, ny.var);
    let g = *self.r.pick(&c).unwrap();
    let add = |f: usize, kind: Kind, z: Id| if kind == Kind::Direct { Edit::D(f, z) } else { Edit::SIns(f, z) };
    let kx = self.s.vars[v].fields[f].kind;
    let ky = self.s.vars[ny.var].fields[g].kind;
    let mut ops = vec![];
    if self.proj[&t][&x].links[f].contains(y) {
      // take it away, from either side or from both
      let side = self.r.below(3);
      let del = |f: usize, kind: Kind, z: Id| if kind == Kind::Direct { Edit::D(f, 0) } else { Edit::SDel(f, z) };
      if side != 1 {
        let k = self.change(x, vec![del(f, kx, y)], v);
        ops.push(k);
      }
      if side != 0 {
        if let Some(g) = c.iter().copied().find(|g| ny.links[*g].contains(x)) {
          let k = self.change(y, vec![del(g, self.s.vars[ny.var].fields[g].kind, x)], ny.var);
          ops.push(k);
        }
      }
      self.batch(t, ops);
      return;
    }
    let both = c.len() > 1 || self.r.p(0.25);
    if let Link::D(z) = ny.links[g] {
      if z != 0 && z != x && !both {
        if self.r.p(0.5) {
          let k = self.change(y, vec![Edit::D(g, 0)], ny.var);
          ops.push(k);
        } else if let Some(nz) = self.proj[&t].get(&z).cloned() {
          // the former partner lets go
          let e: Vec<Edit> = (0..nz.links.len())
            .filter(|q| self.s.opp_in(ny.var, g, nz.var).contains(q) && nz.links[*q].contains(y))
            .map(|q| if matches!(nz.links[q], Link::D(_)) { Edit::D(q, 0) } else { Edit::SDel(q, y) })
            .collect();
          let k = self.change(z, e, nz.var);
          ops.push(k);
        }
      }
    }
    let k = self.change(x, vec![add(f, kx, y)], v);
    ops.push(k);
    if both {
      let k = self.change(y, vec![add(g, ky, x)], ny.var);
      ops.push(k);
    }
    self.shuffle(&mut ops);
    self.batch(t, ops);
  }

  /// two nodes of one variant exchange a link
  fn swap(&mut self, t: usize) {
    let Some(x) = self.subject(t) else { return };
    let v = self.proj[&t][&x].var;
    let fs: Vec<usize> = (0..self.s.nfields(v)).filter(|f| self.s.is_bidi(v, *f)).collect();
    let Some(f) = self.r.pick(&fs).copied() else { return };
    let ys: Vec<Id> = self.nodes(t).into_iter().filter(|y| *y != x && self.proj[&t][y].var == v).collect();
    let Some(y) = self.r.pick(&ys).copied() else { return };
    let (lx, ly) = (self.proj[&t][&x].links[f].clone(), self.proj[&t][&y].links[f].clone());
    let to = |l: &Link| -> Vec<Edit> {
      match l {
        Link::D(z) => vec![Edit::D(f, *z)],
        Link::S(s) => [Edit::SClear(f)].into_iter().chain(s.iter().map(|z| Edit::SIns(f, *z))).collect(),
        Link::V(_) => vec![],
      }
    };
    let a = self.change(x, to(&ly), v);
    let b = self.change(y, to(&lx), v);
    self.batch(t, vec![a, b]);
  }

  fn misuse(&mut self, t: usize) {
    let ctx = self.w.trans[&t].ctx;
    let uid = self.uid();
    let allocs: Vec<(Id, Option<usize>)> = self.w.trans[&t].allocs.iter().map(|x| (*x.0, *x.1)).collect();
    let news: Vec<Id> = self.w.trans[&t].new.keys().copied().filter(|h| self.known(t, *h)).collect();
    let k = match self.r.below(8) {
      0 => {
        let v = self.var();
        let (h, typ) = match self.r.pick(&allocs).copied() {
          Some((h, Some(a))) => (h, a),
          _ => {
            let h = self.handle();
            let a = self.var();
            if !self.push(Step::Op { t, op: Op { uid, k: OpK::Alloc { h, var: Some(a), mac: false } } }) {
              return;
            }
            (h, a)
          },
        };
        if v == typ {
          return;
        }
        let node = self.node(t, v, None);
        OpK::Fill { h, node, untyped: false }
      },
      1 => {
        let Some(h) = self.r.pick(&news).copied() else { return };
        let same = self.w.trans[&t].new[&h].var;
        let v = if self.r.p(0.4) { same } else { self.var() };
        let node = self.node(t, v, None);
        OpK::Fill { h, node, untyped: self.r.p(0.5) }
      },
      2 => {
        let olds = self.old_nodes(t);
        let h = if self.r.p(0.5) { self.r.pick(&olds).copied() } else { self.absent(t) };
        let Some(h) = h else { return };
        let v = self.var();
        let node = self.node(t, v, None);
        OpK::Fill { h, node, untyped: self.r.p(0.5) }
      },
      3 => {
        let gs: Vec<usize> = self.w.graphs.iter().filter(|x| x.1.ctx != ctx).map(|x| *x.0).collect();
        let Some(g) = self.r.pick(&gs).copied() else {
          let g = self.g;
          self.g += 1;
          let default = self.r.p(0.5);
          self.push(Step::NewGraph { g, ctx: CtxSel::New { default } });
          return;
        };
        OpK::Merge { g, how: How::Native }
      },
      7 => {
        // a typed closure for another variant
        let Some(h) = self.subject(t) else { return };
        let v = self.var();
        if v == self.proj[&t][&h].var {
          return;
        }
        let k = if self.r.p(0.5) {
          OpK::Mutate { h, edits: vec![], typed: Some(v) }
        } else {
          OpK::Update { h, edits: vec![], typed: Some(v) }
        };
        if self.w.trans[&t].new.contains_key(&h) {
          k
        } else {
          self.force = true;
          self.batch(t, vec![k]);
          self.force = false;
          return;
        }
      },
      n => {
        let Some(h) = self.absent(t) else { return };
        self.force = true;
        let k = match n {
          4 => OpK::Mutate { h, edits: vec![], typed: None },
          5 => OpK::Update { h, edits: vec![], typed: None },
          _ => OpK::Remove { h },
        };
        self.batch(t, vec![k]);
        self.force = false;
        return;
      },
    };
    let uid = self.uid();
    self.push(Step::Op { t, op: Op { uid, k } });
  }
}

fn put(l: &mut Link, x: Id) {
  match l {
    Link::D(z) => *z = x,
    Link::V(v) => v.push(x),
    Link::S(s) => {
      s.insert(x);
    },
  }
}
