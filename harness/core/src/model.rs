//! The reference model: an executable reading of TTGraph's documentation over handles.
//! It never looks at anything that the library computed.
use crate::hist::*;
use crate::schema::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::Arc;

pub type Nodes = BTreeMap<Id, MNode>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Reason {
  ForeignCtx,
  Unfilled,
  BadMutate,
  BadUpdate,
  BadRemove,
  RedirectLoop,
  BidiOccupied,
  BidiChoice,
  LinkType,
  ClosureType,
  FillWrongType,
  FillTwice,
  FillUnknown,
  MergeForeign,
  CheckFailed,
}
impl Reason {
  pub fn is_misuse(self) -> bool {
    use Reason::*;
    matches!(self, ForeignCtx | Unfilled | BadMutate | BadUpdate | BadRemove | FillWrongType | FillTwice | FillUnknown | MergeForeign)
  }
  pub fn is_bidi(self) -> bool {
    matches!(self, Reason::BidiOccupied | Reason::BidiChoice)
  }
}

#[derive(Clone, Debug)]
pub enum Stop {
  /// the documentation demands a panic
  Panic(Reason),
  /// the documentation does not say; such a step is never executed
  Ambig(&'static str),
}

pub type Triple = (Id, Id, usize, usize); // source, target, variant of the source, field

#[derive(Clone, Debug, Default)]
pub struct CommitInfo {
  pub obs: Vec<(u64, MNode)>,
  pub nodes: Nodes,
  pub pre: Nodes,
  pub adds: BTreeSet<Triple>,
  pub removes: BTreeSet<Triple>,
  pub auto_adds: usize,
  pub auto_removes: usize,
  /// links that violate a declaration but were there before
  pub old_illegal: usize,
  /// nodes that the commit may have touched on the way
  pub may: BTreeSet<Id>,
  pub new: BTreeSet<Id>,
}

#[derive(Clone, Debug)]
pub struct MGraph {
  pub ctx: usize,
  pub nodes: Nodes,
}

#[derive(Clone, Debug, Default)]
pub struct MTrans {
  pub ctx: usize,
  pub ops: usize,
  pub allocs: BTreeMap<Id, Option<usize>>,
  pub new: Nodes,
  pub removed: BTreeSet<Id>,
  pub cancelled: BTreeSet<Id>,
  pub muts: Vec<(Id, Vec<Edit>, Option<usize>, u64)>,
  pub upds: Vec<(Id, Vec<Edit>, Option<usize>, u64)>,
  pub redir: Vec<(Id, Id)>,
  pub redir_all: Vec<(Id, Id)>,
  pub extended: BTreeSet<Id>,
}
impl MTrans {
  pub fn pending(&self) -> bool {
    !(self.allocs.is_empty()
      && self.new.is_empty()
      && self.removed.is_empty()
      && self.muts.is_empty()
      && self.upds.is_empty()
      && self.redir.is_empty()
      && self.redir_all.is_empty())
  }
}

#[derive(Clone)]
pub struct World {
  pub schema: Arc<Schema>,
  pub graphs: BTreeMap<usize, MGraph>,
  pub trans: BTreeMap<usize, MTrans>,
  /// identity class of each context; a deserialized context shares the identity of its origin
  pub ctxs: Vec<usize>,
  /// context of every handle whose index is known
  pub known: HashMap<Id, usize>,
}

pub fn triples(nodes: &Nodes) -> BTreeSet<Triple> {
  let mut r = BTreeSet::new();
  for (x, n) in nodes {
    for (f, l) in n.links.iter().enumerate() {
      for y in l.ids() {
        if y != 0 {
          r.insert((*x, y, n.var, f));
        }
      }
    }
  }
  r
}

fn redirect(nodes: &mut Nodes, map: &BTreeMap<Id, Id>, may: &mut BTreeSet<Id>) {
  for (h, n) in nodes.iter_mut() {
    for l in n.links.iter_mut() {
      let ids = l.ids();
      if ids.iter().any(|x| map.contains_key(x)) {
        may.insert(*h);
        let mut m = l.map(&mut |x| *map.get(&x).unwrap_or(&x));
        // to nothing: sets lose the element
        if let Link::S(s) = &mut m {
          if !ids.contains(&0) {
            s.remove(&0);
          }
        }
        *l = m;
      }
    }
  }
}
fn purge(nodes: &mut Nodes, x: Id, may: &mut BTreeSet<Id>) {
  for (h, n) in nodes.iter_mut() {
    for l in n.links.iter_mut() {
      if !l.contains(x) {
        continue;
      }
      may.insert(*h);
      match l {
        Link::D(y) => *y = 0,
        Link::V(v) => v.iter_mut().filter(|y| **y == x).for_each(|y| *y = 0),
        Link::S(s) => {
          s.remove(&x);
        },
      }
    }
  }
}

impl World {
  pub fn new(schema: Arc<Schema>) -> World {
    World { schema, graphs: BTreeMap::new(), trans: BTreeMap::new(), ctxs: vec![], known: HashMap::new() }
  }

  fn refs_ok(&self, ctx: usize, ids: &[Id]) -> bool {
    ids.iter().all(|x| *x == 0 || self.known.get(x) == Some(&ctx))
  }
  fn node_ok(&self, ctx: usize, n: &MNode) -> Result<(), Stop> {
    if n.var >= self.schema.vars.len() || n.links.len() != self.schema.nfields(n.var) {
      return Err(Stop::Ambig("malformed node"));
    }
    for (l, f) in n.links.iter().zip(&self.schema.vars[n.var].fields) {
      let good = match l {
        Link::D(_) => f.kind == Kind::Direct,
        Link::V(_) => f.kind == Kind::Vec,
        Link::S(_) => f.kind.is_set(),
      };
      if !good {
        return Err(Stop::Ambig("malformed node"));
      }
      if !self.refs_ok(ctx, &l.ids()) {
        return Err(Stop::Ambig("unknown handle"));
      }
    }
    Ok(())
  }
  fn edits_ok(&self, ctx: usize, edits: &[Edit], typed: bool) -> Result<(), Stop> {
    for e in edits {
      match e {
        Edit::Replace(n) => {
          if typed {
            return Err(Stop::Ambig("typed replace"));
          }
          self.node_ok(ctx, n)?
        },
        Edit::D(_, x) | Edit::VPush(_, x) | Edit::VSet(_, _, x) | Edit::SIns(_, x) | Edit::SDel(_, x) => {
          if !self.refs_ok(ctx, &[*x]) {
            return Err(Stop::Ambig("unknown handle"));
          }
        },
        _ => {},
      }
    }
    Ok(())
  }

  pub fn new_ctx(&mut self, sel: &CtxSel) -> Result<usize, Stop> {
    match sel {
      CtxSel::New { .. } => {
        let c = self.ctxs.len();
        self.ctxs.push(c);
        Ok(c)
      },
      CtxSel::Of(g) => Ok(self.graphs.get(g).ok_or(Stop::Ambig("no graph"))?.ctx),
    }
  }

  /// Record an operation. Returns what its closure observed if it ran at once.
  pub fn op(&mut self, t: usize, op: &Op) -> Result<Option<(u64, MNode)>, Stop> {
    let Some(tr) = self.trans.get(&t) else { return Err(Stop::Ambig("no transaction")) };
    let ctx = tr.ctx;
    for h in op.defines() {
      if self.known.contains_key(&h) || h == 0 {
        return Err(Stop::Ambig("handle defined twice"));
      }
    }
    for h in op.subject() {
      if h == 0 || self.known.get(&h) != Some(&ctx) {
        return Err(Stop::Ambig("unknown subject"));
      }
    }
    match &op.k {
      OpK::Insert { h, node } => {
        self.node_ok(ctx, node)?;
        self.known.insert(*h, ctx);
        self.tr(t).new.insert(*h, node.clone());
      },
      OpK::Extend { items } => {
        for (_, n) in items {
          self.node_ok(ctx, n)?;
        }
        for (h, n) in items {
          self.tr(t).new.insert(*h, n.clone());
          self.tr(t).extended.insert(*h);
        }
      },
      OpK::Alloc { h, var, .. } => {
        self.known.insert(*h, ctx);
        self.tr(t).allocs.insert(*h, *var);
      },
      OpK::Fill { h, node, untyped } => {
        self.node_ok(ctx, node)?;
        let tr = self.tr(t);
        match tr.allocs.get(h) {
          Some(Some(v)) => {
            if *v != node.var {
              if *untyped {
                return Err(Stop::Ambig("untyped fill of a typed alloc"));
              }
              return Err(Stop::Panic(Reason::FillWrongType));
            }
          },
          Some(None) => {
            if !*untyped {
              return Err(Stop::Ambig("typed fill of an untyped alloc"));
            }
          },
          None => {
            if tr.new.contains_key(h) {
              return Err(Stop::Panic(Reason::FillTwice));
            }
            if tr.cancelled.contains(h) {
              return Err(Stop::Ambig("fill of a cancelled index"));
            }
            return Err(Stop::Panic(Reason::FillUnknown));
          },
        }
        tr.allocs.remove(h);
        tr.new.insert(*h, node.clone());
      },
      OpK::Remove { h } => {
        let tr = self.tr(t);
        if tr.new.remove(h).is_some() || tr.allocs.remove(h).is_some() {
          tr.cancelled.insert(*h);
        } else {
          tr.removed.insert(*h);
        }
      },
      OpK::Mutate { h, edits, typed } | OpK::Update { h, edits, typed } => {
        self.edits_ok(ctx, edits, typed.is_some())?;
        let upd = matches!(op.k, OpK::Update { .. });
        let tr = self.tr(t);
        if let Some(n) = tr.new.get_mut(h) {
          if typed.is_some_and(|v| v != n.var) {
            return Err(Stop::Panic(Reason::ClosureType));
          }
          let seen = (op.uid, n.clone());
          edits.iter().for_each(|e| e.apply(n));
          tr.ops += 1;
          return Ok(Some(seen));
        }
        let e = (*h, edits.clone(), *typed, op.uid);
        if upd {
          tr.upds.push(e)
        } else {
          tr.muts.push(e)
        }
      },
      OpK::Redirect { a, b } => self.tr(t).redir.push((*a, *b)),
      OpK::RedirectAll { a, b } => self.tr(t).redir_all.push((*a, *b)),
      OpK::Merge { g, .. } => {
        let Some(gr) = self.graphs.get(g) else { return Err(Stop::Ambig("no graph")) };
        if gr.ctx != ctx {
          if self.ctxs[gr.ctx] == self.ctxs[ctx] {
            return Err(Stop::Ambig("contexts share an identity"));
          }
          return Err(Stop::Panic(Reason::MergeForeign));
        }
        let nodes = self.graphs.remove(g).unwrap().nodes;
        self.tr(t).new.extend(nodes);
      },
    }
    self.tr(t).ops += 1;
    Ok(None)
  }
  fn tr(&mut self, t: usize) -> &mut MTrans {
    self.trans.get_mut(&t).unwrap()
  }

  fn redirect_map(&self, reqs: &[(Id, Id)]) -> Result<BTreeMap<Id, Id>, Stop> {
    let mut m = BTreeMap::new();
    for (a, b) in reqs {
      if m.insert(*a, *b).is_some_and(|o| o != *b) {
        return Err(Stop::Ambig("one node redirected to different ones"));
      }
    }
    let mut r = BTreeMap::new();
    for (a, _) in reqs {
      let mut x = *a;
      let mut steps = 0;
      while let Some(y) = m.get(&x) {
        x = *y;
        steps += 1;
        if steps > m.len() {
          return Err(Stop::Panic(Reason::RedirectLoop));
        }
      }
      r.insert(*a, x);
    }
    Ok(r)
  }

  /// What committing transaction `t` to graph `g` must do. Does not change the world.
  pub fn commit(&self, t: usize, g: usize) -> Result<CommitInfo, Stop> {
    let Some(tr) = self.trans.get(&t) else { return Err(Stop::Ambig("no transaction")) };
    let Some(gr) = self.graphs.get(&g) else { return Err(Stop::Ambig("no graph")) };
    if tr.ctx != gr.ctx {
      if self.ctxs[tr.ctx] == self.ctxs[gr.ctx] {
        return Err(Stop::Ambig("contexts share an identity"));
      }
      return Err(Stop::Panic(Reason::ForeignCtx));
    }
    if !tr.allocs.is_empty() {
      return Err(Stop::Panic(Reason::Unfilled));
    }
    let s = &self.schema;
    let pre = gr.nodes.clone();
    let mut nodes = pre.clone();
    let mut info = CommitInfo::default();
    let mut may = BTreeSet::new();
    // redirect
    let m = self.redirect_map(&tr.redir)?;
    redirect(&mut nodes, &m, &mut may);
    // insert
    for (h, n) in &tr.new {
      if nodes.insert(*h, n.clone()).is_some() {
        return Err(Stop::Ambig("node inserted twice"));
      }
      info.new.insert(*h);
    }
    // mutate, then update
    for (list, why) in [(&tr.muts, Reason::BadMutate), (&tr.upds, Reason::BadUpdate)] {
      for (h, edits, typed, uid) in list {
        let Some(n) = nodes.get_mut(h) else { return Err(Stop::Panic(why)) };
        if typed.is_some_and(|v| v != n.var) {
          return Err(Stop::Panic(Reason::ClosureType));
        }
        info.obs.push((*uid, n.clone()));
        edits.iter().for_each(|e| e.apply(n));
        may.insert(*h);
      }
    }
    // redirect all
    let m = self.redirect_map(&tr.redir_all)?;
    redirect(&mut nodes, &m, &mut may);
    // remove
    for h in &tr.removed {
      if nodes.remove(h).is_none() {
        return Err(Stop::Panic(Reason::BadRemove));
      }
      purge(&mut nodes, *h, &mut may);
    }
    for h in &tr.cancelled {
      if nodes.contains_key(h) {
        return Err(Stop::Ambig("removed and present"));
      }
      purge(&mut nodes, *h, &mut may);
    }
    // bidirectional declarations
    let l0 = triples(&pre);
    let l1 = triples(&nodes);
    let removes: Vec<Triple> = l0.difference(&l1).copied().collect();
    let adds: Vec<Triple> = l1.difference(&l0).copied().collect();
    if s.has_bidi {
      let mut first: Option<Result<Nodes, Reason>> = None;
      for order in 0..3 {
        let (mut rs, mut ad) = (removes.clone(), adds.clone());
        match order {
          1 => {
            rs.reverse();
            ad.reverse();
          },
          2 => {
            rs.sort_by_key(|t| mix(t.0 * 31 + t.1 * 7 + t.3 as u64));
            ad.sort_by_key(|t| mix(t.0 * 37 + t.1 * 11 + t.3 as u64));
          },
          _ => {},
        }
        let mut n2 = nodes.clone();
        let out = match self.bidi(&mut n2, &rs, &ad) {
          Ok(()) => Ok(n2),
          Err(Stop::Panic(r)) => Err(r),
          Err(a) => return Err(a),
        };
        match &first {
          None => first = Some(out),
          Some(f) => {
            let same = match (f, &out) {
              (Ok(a), Ok(b)) => a == b,
              (Err(_), Err(_)) => true,
              _ => false,
            };
            if !same {
              return Err(Stop::Ambig("depends on the order of links"));
            }
          },
        }
      }
      match first.unwrap() {
        Ok(n2) => nodes = n2,
        Err(r) => return Err(Stop::Panic(r)),
      }
      if let Some(_why) = asymmetry(s, &nodes, false) {
        return Err(Stop::Ambig("counterpart not defined by the changes"));
      }
    }
    let l2 = triples(&nodes);
    info.auto_adds = l2.difference(&l1).count();
    info.auto_removes = l1.difference(&l2).count();
    info.adds = l2.difference(&l0).copied().collect();
    info.removes = l0.difference(&l2).copied().collect();
    // link types
    for (x, y, v, f) in &l2 {
      let (Some(a), Some(n)) = (&s.allowed[*v][*f], nodes.get(y)) else { continue };
      if !a.contains(&n.var) {
        if info.adds.contains(&(*x, *y, *v, *f)) {
          return Err(Stop::Panic(Reason::LinkType));
        }
        // only new links are judged; whether one more entry in a vector is a new link is left open
        let count = |n: Option<&MNode>| n.map_or(0, |n| if n.var == *v { n.links[*f].ids().into_iter().filter(|z| z == y).count() } else { 0 });
        if count(nodes.get(x)) > count(pre.get(x)) {
          return Err(Stop::Ambig("another entry for an existing illegal link"));
        }
        info.old_illegal += 1;
      }
    }
    for t in info.adds.iter().chain(&info.removes) {
      may.insert(t.0);
      may.insert(t.1);
    }
    may.extend(info.new.iter().copied());
    for (h, n) in &nodes {
      if pre.get(h) != Some(n) {
        may.insert(*h);
      }
    }
    may.retain(|h| nodes.contains_key(h));
    info.may = may;
    info.nodes = nodes;
    info.pre = pre;
    Ok(info)
  }

  fn bidi(&self, nodes: &mut Nodes, removes: &[Triple], adds: &[Triple]) -> Result<(), Stop> {
    let s = &self.schema;
    let added: HashSet<Triple> = adds.iter().copied().collect();
    for (x, y, v, f) in removes {
      if !nodes.contains_key(x) {
        continue;
      }
      let Some(n) = nodes.get_mut(y) else { continue };
      for g in s.opp_in(*v, *f, n.var) {
        if n.links[g].contains(*x) {
          if added.contains(&(*y, *x, n.var, g)) {
            return Err(Stop::Ambig("link added and its counterpart removed"));
          }
          match &mut n.links[g] {
            Link::D(z) => *z = 0,
            Link::S(z) => {
              z.remove(x);
            },
            Link::V(_) => return Err(Stop::Ambig("vector in a bidirectional declaration")),
          }
        }
      }
    }
    for (x, y, v, f) in adds {
      if !nodes.contains_key(x) {
        continue;
      }
      let Some(n) = nodes.get_mut(y) else { continue };
      let c = s.opp_in(*v, *f, n.var);
      if c.is_empty() || c.iter().any(|g| n.links[*g].contains(*x)) {
        continue;
      }
      if c.len() > 1 {
        return Err(Stop::Panic(Reason::BidiChoice));
      }
      match &mut n.links[c[0]] {
        Link::D(z) => {
          if *z != 0 {
            return Err(Stop::Panic(Reason::BidiOccupied));
          }
          *z = *x
        },
        Link::S(z) => {
          z.insert(*x);
        },
        Link::V(_) => return Err(Stop::Ambig("vector in a bidirectional declaration")),
      }
    }
    Ok(())
  }

  pub fn finish_commit(&mut self, t: usize, g: usize, info: &CommitInfo) {
    let tr = self.trans.remove(&t).unwrap();
    for h in &tr.extended {
      self.known.insert(*h, tr.ctx);
    }
    self.graphs.get_mut(&g).unwrap().nodes = info.nodes.clone();
  }

  /// A graph can be switched if nothing in it points outside.
  pub fn switch(&mut self, g: usize, to: &CtxSel, uid: u64) -> Result<usize, Stop> {
    let Some(gr) = self.graphs.get(&g) else { return Err(Stop::Ambig("no graph")) };
    for n in gr.nodes.values() {
      for l in &n.links {
        for x in l.ids() {
          if x != 0 && !gr.nodes.contains_key(&x) {
            return Err(Stop::Ambig("external link"));
          }
          if x == 0 && matches!(l, Link::S(_)) {
            return Err(Stop::Ambig("empty index in a set"));
          }
        }
      }
    }
    for (_, y, v, f) in triples(&gr.nodes) {
      if self.schema.allowed[v][f].as_ref().is_some_and(|a| !a.contains(&gr.nodes[&y].var)) {
        return Err(Stop::Ambig("switch of a graph with an illegal link"));
      }
    }
    let tags: HashSet<u64> = gr.nodes.values().map(|n| n.tag).collect();
    if tags.len() != gr.nodes.len() {
      return Err(Stop::Ambig("payloads not unique"));
    }
    if let CtxSel::Of(o) = to {
      if !self.graphs.contains_key(o) {
        return Err(Stop::Ambig("no graph"));
      }
    }
    let fresh: BTreeSet<Id> = gr.nodes.keys().map(|h| relabel(*h, uid)).collect();
    if fresh.len() != gr.nodes.len() || fresh.iter().any(|h| self.known.contains_key(h)) {
      return Err(Stop::Ambig("relabelled twice"));
    }
    let c = self.new_ctx(to)?;
    let gr = self.graphs.remove(&g).unwrap();
    let mut nodes = Nodes::new();
    for (h, n) in &gr.nodes {
      nodes.insert(relabel(*h, uid), n.map(&mut |x| relabel(x, uid)));
      self.known.insert(relabel(*h, uid), c);
    }
    self.graphs.insert(g, MGraph { ctx: c, nodes });
    Ok(c)
  }

  /// The deserialized copy lives in a context of its own that shares the identity of the original.
  /// Returns (slot of the copy, its context, the handles it uses).
  pub fn serde(&mut self, g: usize, uid: u64, keep: Option<usize>, craft: Option<&Craft>) -> Result<(usize, usize, Vec<Id>), Stop> {
    let Some(gr) = self.graphs.get(&g) else { return Err(Stop::Ambig("no graph")) };
    if let Some(k) = keep {
      if self.graphs.contains_key(&k) {
        return Err(Stop::Ambig("slot in use"));
      }
    }
    if let Some(c) = craft {
      // what is left out must be put back
      let mut cut = gr.nodes.clone();
      cut_links(&mut cut, &c.less)?;
      let all: Vec<Triple> = triples(&cut).into_iter().collect();
      let rev: Vec<Triple> = all.iter().rev().copied().collect();
      for order in [all, rev] {
        let mut back = cut.clone();
        if self.bidi(&mut back, &[], &order).is_err() || back != gr.nodes {
          return Err(Stop::Ambig("links left out that do not come back"));
        }
      }
    }
    let mut used: BTreeSet<Id> = gr.nodes.keys().copied().collect();
    for n in gr.nodes.values() {
      for l in &n.links {
        used.extend(l.ids().into_iter().filter(|x| *x != 0));
      }
    }
    let fresh: BTreeSet<Id> = used.iter().map(|h| relabel(*h, uid)).collect();
    if fresh.len() != used.len() || fresh.iter().any(|h| self.known.contains_key(h)) {
      return Err(Stop::Ambig("relabelled twice"));
    }
    let class = self.ctxs[gr.ctx];
    let c = self.ctxs.len();
    self.ctxs.push(class);
    let mut nodes = Nodes::new();
    for (h, n) in &gr.nodes {
      nodes.insert(relabel(*h, uid), n.map(&mut |x| relabel(x, uid)));
    }
    for h in &used {
      self.known.insert(relabel(*h, uid), c);
    }
    let slot = keep.unwrap_or(g);
    self.graphs.insert(slot, MGraph { ctx: c, nodes });
    Ok((slot, c, used.into_iter().collect()))
  }
}

pub fn cut_links(nodes: &mut Nodes, less: &[(Id, usize, Id)]) -> Result<(), Stop> {
  for (x, f, y) in less {
    let l = nodes.get_mut(x).and_then(|n| n.links.get_mut(*f)).ok_or(Stop::Ambig("no such link"))?;
    match l {
      Link::D(z) if z == y => *z = 0,
      Link::S(z) if z.contains(y) => {
        z.remove(y);
      },
      _ => return Err(Stop::Ambig("no such link")),
    }
  }
  Ok(())
}

/// A link whose declared counterpart is missing. With `pairs_only` just one to one declarations count.
pub fn asymmetry(s: &Schema, nodes: &Nodes, pairs_only: bool) -> Option<String> {
  for (x, n) in nodes {
    for (f, l) in n.links.iter().enumerate() {
      if !s.is_bidi(n.var, f) {
        continue;
      }
      for y in l.ids() {
        let Some(m) = nodes.get(&y) else { continue };
        let c = s.opp_in(n.var, f, m.var);
        if pairs_only && (c.len() != 1 || s.opp_in(m.var, c[0], n.var) != [f]) {
          continue;
        }
        if !c.is_empty() && !c.iter().any(|g| m.links[*g].contains(*x)) {
          return Some(format!(
            "{x} ({}) links to {y} ({}) through {} but {y} has no link back through {:?}",
            s.vars[n.var].name,
            s.vars[m.var].name,
            s.vars[n.var].fields[f].name,
            c.iter().map(|g| s.vars[m.var].fields[*g].name).collect::<Vec<_>>()
          ));
        }
      }
    }
  }
  None
}
