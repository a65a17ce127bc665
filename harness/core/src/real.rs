//! The real library behind an interface that does not depend on the node type.
//! Every call into TTGraph is made here, and every call is guarded against panics.
use crate::hist::*;
use crate::schema::*;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use ttgraph::serialize::*;
use ttgraph::*;

thread_local! {
  static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
  static QUIET: Cell<bool> = const { Cell::new(false) };
}
pub fn install_hook() {
  let old = std::panic::take_hook();
  std::panic::set_hook(Box::new(move |i| {
    if QUIET.with(|q| q.get()) {
      let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
        s.to_string()
      } else if let Some(s) = i.payload().downcast_ref::<String>() {
        s.clone()
      } else {
        "?".into()
      };
      let loc = i.location().map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line())).unwrap_or_default();
      PANIC_MSG.with(|p| *p.borrow_mut() = format!("{m} at {loc}"));
    } else {
      old(i)
    }
  }));
}
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
  let was = QUIET.with(|q| q.replace(true));
  let r = catch_unwind(AssertUnwindSafe(f));
  QUIET.with(|q| q.set(was));
  r.map_err(|_| PANIC_MSG.with(|p| p.borrow().clone()))
}

#[derive(Clone, Debug, PartialEq)]
pub struct CheckCall {
  pub kind: u8,
  pub name: String,
  pub x: Id,
  pub y: Id,
  pub from: MNode,
  pub to: Option<MNode>,
}

pub type Dump = Vec<(Id, MNode)>;
pub type RRes<T> = Result<T, String>;

pub trait Real {
  fn new_ctx(&mut self, default: bool) -> usize;
  fn new_graph(&mut self, g: usize, ctx: usize) -> RRes<()>;
  fn begin(&mut self, t: usize, ctx: usize) -> RRes<()>;
  /// ids already translated; returns the index handed out, if any
  fn op(&mut self, t: usize, op: &Op, plain: bool) -> RRes<Option<Id>>;
  fn trans_empty(&self, t: usize) -> RRes<bool>;
  fn drop_trans(&mut self, t: usize, how: u8) -> RRes<()>;
  fn commit(&mut self, t: usize, g: usize) -> RRes<()>;
  fn commit_checked(&mut self, t: usize, g: usize, checks: &[Chk]) -> RRes<Vec<CheckCall>>;
  /// the calls of checks in the last checked commit
  fn take_calls(&mut self) -> Vec<CheckCall>;
  fn switch(&mut self, g: usize, ctx: usize) -> RRes<()>;
  fn serde(&mut self, g: usize, mode: u8, keep: Option<usize>) -> RRes<usize>;
  /// deserialize these nodes instead of what the graph serializes to; None if the serialized
  /// form is not understood
  fn serde_crafted(&mut self, g: usize, nodes: &Dump, keep: Option<usize>) -> RRes<Option<usize>>;
  fn drop_graph(&mut self, g: usize, mode: u8) -> RRes<Option<Dump>>;
  fn dump(&self, g: usize) -> RRes<Dump>;
  /// disagreements between the views of a graph, with the dump as reference; typed macros apart
  fn views(&self, g: usize, dump: &Dump, absent: &[Id], typed: bool) -> RRes<Option<String>>;
  fn display(&self, g: usize) -> RRes<String>;
  fn json(&self, g: usize) -> RRes<String>;
  fn integrity(&self, g: usize) -> RRes<()>;
  fn take_obs(&mut self) -> Vec<(u64, MNode)>;
  fn schema(&self) -> &Schema;
  /// recreate the contents with plain allocations and insertions (counterfactual runs only)
  fn rebuild(&mut self, nodes: &Dump, ctx: usize, g: usize) -> RRes<BTreeMap<Id, Id>>;
  fn rebuild_into(&mut self, t: usize, nodes: &Dump) -> RRes<BTreeMap<Id, Id>>;
  fn forget_graph(&mut self, g: usize);
}

type Log = Rc<RefCell<Vec<(u64, MNode)>>>;

/// replaces everything that looks like a UUID
fn hide_ids(s: &str) -> String {
  let b = s.as_bytes();
  let is = |w: &[u8]| {
    w.iter().enumerate().all(|(i, c)| if matches!(i, 8 | 13 | 18 | 23) { *c == b'-' } else { c.is_ascii_hexdigit() })
  };
  let mut out = Vec::with_capacity(b.len());
  let mut i = 0;
  while i < b.len() {
    if i + 36 <= b.len() && is(&b[i..i + 36]) {
      out.extend_from_slice(b"<id>");
      i += 36;
    } else {
      out.push(b[i]);
      i += 1;
    }
  }
  String::from_utf8(out).unwrap()
}

pub struct RealWorld<N: VNode> {
  schema: Schema,
  ctxs: Vec<Context>,
  graphs: BTreeMap<usize, Graph<N>>,
  trans: BTreeMap<usize, Transaction<'static, N>>,
  log: Log,
  calls: Vec<CheckCall>,
}

pub const TOKEN: u64 = 1 << 60;

fn edit_struct(log: &Log, uid: u64, edits: &[Edit], var: usize, s: &mut dyn VStructDyn) {
  nest_point();
  let mut m = MNode { var, tag: s.tag(), val: s.val(), links: s.rd() };
  log.borrow_mut().push((uid, m.clone()));
  edits.iter().for_each(|e| e.apply(&mut m));
  s.wr(m.val, &m.links);
}
/// Some(new contents) when the node has to be replaced as a whole
fn edit_node<N: VNode>(log: &Log, uid: u64, edits: &[Edit], n: &mut N) -> Option<N> {
  if edits.iter().any(|e| matches!(e, Edit::Replace(_))) {
    nest_point();
    let mut m = n.read();
    log.borrow_mut().push((uid, m.clone()));
    edits.iter().for_each(|e| e.apply(&mut m));
    Some(N::make(&m))
  } else {
    let v = n.var();
    edit_struct(log, uid, edits, v, n.vs_mut());
    None
  }
}

impl<N: VNode> RealWorld<N> {
  pub fn boxed() -> Box<dyn Real> {
    Box::new(RealWorld::<N> {
      schema: N::schema(),
      ctxs: vec![],
      graphs: BTreeMap::new(),
      trans: BTreeMap::new(),
      log: Default::default(),
      calls: vec![],
    })
  }
}

/// the provided methods of an iterator must agree with repeated `next`
fn adaptors<I: Iterator<Item = Id>>(
  name: &str, order: &[Id], it: &dyn Fn() -> I, nth: &dyn Fn(usize) -> (Option<Id>, usize, Option<Id>),
) -> Option<String> {
  let n = order.len();
  let mut folded = vec![];
  it().for_each(|x| folded.push(x));
  if folded != order {
    return Some(format!("{name}: for_each sees {folded:?}, next yields {order:?}"));
  }
  if it().count() != n || it().last() != order.last().copied() {
    return Some(format!("{name}: count {} last {:?}, next yields {order:?}", it().count(), it().last()));
  }
  for k in [0, 1, 2, n / 2, n.saturating_sub(1), n, n + 1] {
    let want = (order.get(k).copied(), n.saturating_sub(k + 1), order.get(k + 1).copied());
    let got = nth(k);
    if got != want {
      return Some(format!("{name}: nth({k}) is {got:?} (with number left and next), expected {want:?}"));
    }
    if !it().skip(k).eq(order.iter().copied().skip(k)) {
      return Some(format!("{name}: skip({k}) yields {:?}, expected the rest of {order:?}", it().skip(k).collect::<Vec<_>>()));
    }
  }
  if !it().step_by(2).eq(order.iter().copied().step_by(2)) {
    return Some(format!("{name}: step_by(2) yields {:?}", it().step_by(2).collect::<Vec<_>>()));
  }
  None
}

fn ni(x: Id) -> NodeIndex {
  NodeIndex(x as usize)
}

thread_local! {
  /// what the client's callbacks do besides their work
  pub static NEST: RefCell<Option<Box<dyn FnMut()>>> = const { RefCell::new(None) };
}
/// Called by the client's closures and checks, i.e. in the middle of a call to the library
fn nest_point() {
  if let Some(mut f) = NEST.with(|n| n.borrow_mut().take()) {
    let evals = evals_replace(0);
    let live = Tag::replace(Default::default());
    let was = QUIET.with(|q| q.replace(false));
    f();
    QUIET.with(|q| q.set(was));
    Tag::replace(live);
    evals_replace(evals);
    NEST.with(|n| *n.borrow_mut() = Some(f));
  }
}
thread_local! {
  /// a context that the histories of several threads share, as their first one
  pub static SHARED: std::cell::RefCell<Option<Context>> = const { std::cell::RefCell::new(None) };
}

impl<N: VNode> Real for RealWorld<N>
where
  Graph<N>: std::fmt::Display,
{
  fn schema(&self) -> &Schema {
    &self.schema
  }
  fn new_ctx(&mut self, default: bool) -> usize {
    let shared = if self.ctxs.is_empty() { SHARED.with(|c| c.borrow().clone()) } else { None };
    self.ctxs.push(shared.unwrap_or_else(|| if default { Context::default() } else { Context::new() }));
    self.ctxs.len() - 1
  }
  fn new_graph(&mut self, g: usize, ctx: usize) -> RRes<()> {
    let c = self.ctxs[ctx].clone();
    let gr = guard(|| Graph::<N>::new(&c))?;
    self.graphs.insert(g, gr);
    Ok(())
  }
  fn begin(&mut self, t: usize, ctx: usize) -> RRes<()> {
    let tr = guard(|| Transaction::new(&self.ctxs[ctx]))?;
    self.trans.insert(t, tr);
    Ok(())
  }
  fn op(&mut self, t: usize, op: &Op, plain: bool) -> RRes<Option<Id>> {
    let uid = op.uid;
    let log = self.log.clone();
    let merged = match &op.k {
      OpK::Merge { g, .. } => Some(self.graphs.remove(g).unwrap()),
      _ => None,
    };
    let tr = self.trans.get_mut(&t).unwrap();
    guard(move || match &op.k {
      OpK::Insert { node, .. } => Some(tr.insert(N::make(node)).0 as u64),
      OpK::Extend { items } => {
        tr.extend(items.iter().map(|(_, n)| N::make(n)));
        None
      },
      OpK::Alloc { var, mac, .. } => Some(
        match var {
          None => tr.alloc_untyped(),
          Some(v) => {
            if *mac && !plain {
              N::alloc_typed(tr, *v)
            } else {
              tr.alloc(N::disc(*v))
            }
          },
        }
        .0 as u64,
      ),
      OpK::Fill { h, node, untyped } => {
        if *untyped {
          tr.fill_back_untyped(ni(*h), N::make(node))
        } else {
          tr.fill_back(ni(*h), N::make(node))
        }
        None
      },
      OpK::Remove { h } => {
        tr.remove(ni(*h));
        None
      },
      OpK::Mutate { h, edits, typed } => {
        let edits = edits.clone();
        match typed {
          Some(v) if !plain => N::mut_typed(tr, *v, ni(*h), Box::new(move |w, s| edit_struct(&log, uid, &edits, w, s))),
          _ => {
            let want = *typed;
            let token = Tag::new(TOKEN + uid);
            tr.mutate(ni(*h), move |n: &mut N| {
              let _token = token;
              if want.is_some_and(|v| v != n.var()) {
                panic!("variant does not match");
              }
              if let Some(m) = edit_node(&log, uid, &edits, n) {
                *n = m;
              }
            })
          },
        }
        None
      },
      OpK::Update { h, edits, typed } => {
        let edits = edits.clone();
        match typed {
          Some(v) if !plain => N::upd_typed(tr, *v, ni(*h), Box::new(move |w, s| edit_struct(&log, uid, &edits, w, s))),
          _ => {
            let want = *typed;
            let token = Tag::new(TOKEN + uid);
            tr.update(ni(*h), move |mut n: N| {
              let _token = token;
              if want.is_some_and(|v| v != n.var()) {
                panic!("variant does not match");
              }
              match edit_node(&log, uid, &edits, &mut n) {
                Some(m) => m,
                None => n,
              }
            })
          },
        }
        None
      },
      OpK::Redirect { a, b } => {
        tr.redirect_links(ni(*a), ni(*b));
        None
      },
      OpK::RedirectAll { a, b } => {
        tr.redirect_all_links(ni(*a), ni(*b));
        None
      },
      OpK::Merge { .. } => {
        tr.merge(merged.unwrap());
        None
      },
    })
  }
  fn trans_empty(&self, t: usize) -> RRes<bool> {
    guard(|| self.trans[&t].is_empty())
  }
  fn drop_trans(&mut self, t: usize, how: u8) -> RRes<()> {
    let tr = self.trans.remove(&t).unwrap();
    guard(|| if how == 0 { tr.give_up() } else { drop(tr) })
  }
  fn commit(&mut self, t: usize, g: usize) -> RRes<()> {
    let tr = self.trans.remove(&t).unwrap();
    let gr = self.graphs.get_mut(&g).unwrap();
    guard(|| gr.commit(tr))
  }
  #[cfg(feature = "debug")]
  fn commit_checked(&mut self, t: usize, g: usize, checks: &[Chk]) -> RRes<Vec<CheckCall>> {
    use ttgraph::check::GraphCheck;
    let tr = self.trans.remove(&t).unwrap();
    let gr = self.graphs.get_mut(&g).unwrap();
    let calls: Rc<RefCell<Vec<CheckCall>>> = Default::default();
    let mut gc = if checks.len() % 2 == 0 { GraphCheck::<N>::new() } else { GraphCheck::default() };
    type Calls = Rc<RefCell<Vec<CheckCall>>>;
    fn register<N: VNode>(gc: &mut GraphCheck<N>, c: &Chk, name: String, fail: Option<Id>, l: Calls) {
      let kind = c.kind;
      if kind == 0 {
        gc.insert_node_check(c.name.clone(), move |x, n| {
          nest_point();
          l.borrow_mut().push(CheckCall { kind, name: name.clone(), x: x.0 as u64, y: 0, from: n.read(), to: None });
          if fail == Some(x.0 as u64) {
            Err(())
          } else {
            Ok(())
          }
        });
        return;
      }
      let f = move |x: NodeIndex, y: NodeIndex, n: &N, m: Option<&N>| {
        nest_point();
        let to = m.map(|m| m.read());
        l.borrow_mut().push(CheckCall { kind, name: name.clone(), x: x.0 as u64, y: y.0 as u64, from: n.read(), to });
        if fail == Some(x.0 as u64) {
          Err(())
        } else {
          Ok(())
        }
      };
      if kind == 1 {
        gc.insert_link_add_check(c.name.clone(), f)
      } else {
        gc.insert_link_remove_check(c.name.clone(), f)
      }
    }
    fn unregister<N: VNode>(gc: &mut GraphCheck<N>, kind: u8, name: &str) {
      match kind {
        0 => gc.remove_node_check(name),
        1 => gc.remove_link_add_check(name),
        _ => gc.remove_link_remove_check(name),
      }
    }
    for c in checks {
      if matches!(c.before, 1 | 2) {
        // must never be called
        register(&mut gc, c, format!("former {}", c.name), None, calls.clone());
      }
      match c.before {
        2 => unregister(&mut gc, c.kind, &c.name),
        3 => unregister(&mut gc, c.kind, "never registered"),
        _ => {},
      }
      register(&mut gc, c, c.name.clone(), c.fail, calls.clone());
    }
    for c in checks.iter().filter(|c| c.removed) {
      unregister(&mut gc, c.kind, &c.name);
      if c.before == 3 {
        unregister(&mut gc, c.kind, &c.name);
      }
    }
    let r = guard(|| gr.commit_checked(tr, &gc));
    self.calls = calls.take();
    r.map(|_| self.take_calls())
  }
  #[cfg(not(feature = "debug"))]
  fn commit_checked(&mut self, t: usize, g: usize, _checks: &[Chk]) -> RRes<Vec<CheckCall>> {
    self.commit(t, g)?;
    Ok(vec![])
  }
  fn take_calls(&mut self) -> Vec<CheckCall> {
    std::mem::take(&mut self.calls)
  }
  fn switch(&mut self, g: usize, ctx: usize) -> RRes<()> {
    let gr = self.graphs.remove(&g).unwrap();
    let c = self.ctxs[ctx].clone();
    let r = guard(|| gr.switch_context(&c))?;
    self.graphs.insert(g, r);
    Ok(())
  }
  fn serde(&mut self, g: usize, mode: u8, keep: Option<usize>) -> RRes<usize> {
    let original = if keep.is_none() { self.graphs.remove(&g) } else { None };
    let graphs = &self.graphs;
    let (ctx, copy) = guard(move || {
      let de = |s: GraphSerializer<N>| deserialize_graph(s);
      match (mode, original) {
        (1, Some(o)) => {
          let text = serde_json::to_string(&GraphSerializer::<N>::from(o)).unwrap();
          de(serde_json::from_str(&text).unwrap())
        },
        (3, Some(o)) => de(GraphSerializer::<N>::from(o)),
        (m, o) => {
          let gr = o.as_ref().unwrap_or_else(|| &graphs[&g]);
          if m == 4 {
            de(bincode::deserialize(&bincode::serialize(gr).unwrap()).unwrap())
          } else if m == 5 {
            let mut b = vec![];
            ciborium::into_writer(gr, &mut b).unwrap();
            de(ciborium::from_reader(&b[..]).unwrap())
          } else if m == 2 {
            de(serde_json::from_value(serde_json::to_value(gr).unwrap()).unwrap())
          } else {
            let text = if m == 0 { serde_json::to_string(gr) } else { serde_json::to_string_pretty(gr) }.unwrap();
            de(serde_json::from_str(&text).unwrap())
          }
        },
      }
    })?;
    self.ctxs.push(ctx);
    self.graphs.insert(keep.unwrap_or(g), copy);
    Ok(self.ctxs.len() - 1)
  }
  fn serde_crafted(&mut self, g: usize, nodes: &Dump, keep: Option<usize>) -> RRes<Option<usize>> {
    use serde_json::Value;
    let graphs = &self.graphs;
    let r = guard(|| {
      let mut v = serde_json::to_value(&graphs[&g]).unwrap();
      let pair = |i: u64, n: &MNode| serde_json::to_value((ni(i), N::make(n))).unwrap();
      let mut want: Vec<String> = graphs[&g].iter().map(|(i, n)| serde_json::to_value((i, n)).unwrap().to_string()).collect();
      want.sort();
      let slot = v.as_object_mut()?.values_mut().find(|x| {
        let Value::Array(a) = x else { return false };
        let mut got: Vec<String> = a.iter().map(|x| x.to_string()).collect();
        got.sort();
        got == want
      })?;
      *slot = Value::Array(nodes.iter().map(|(i, n)| pair(*i, n)).collect());
      let s: GraphSerializer<N> = serde_json::from_str(&v.to_string()).ok()?;
      Some(deserialize_graph(s))
    })?;
    let Some((ctx, copy)) = r else { return Ok(None) };
    if keep.is_none() {
      self.graphs.remove(&g);
    }
    self.ctxs.push(ctx);
    self.graphs.insert(keep.unwrap_or(g), copy);
    Ok(Some(self.ctxs.len() - 1))
  }
  fn drop_graph(&mut self, g: usize, mode: u8) -> RRes<Option<Dump>> {
    let gr = self.graphs.remove(&g).unwrap();
    guard(move || {
      if mode == 0 {
        drop(gr);
        return None;
      }
      if mode >= 2 {
        // in strides, and what is skipped is dropped
        let n = gr.len();
        let k = (mode - 2) as usize;
        let ids: Vec<u64> = gr.iter().map(|x| x.0 .0 as u64).collect();
        let mut it = gr.into_iter();
        let x = it.nth(k).map(|x| x.0 .0 as u64);
        assert!(x == ids.get(k).copied() && it.len() == n.saturating_sub(k + 1), "nth of the owned iterator");
        let mut rest = vec![];
        it.for_each(|x| rest.push(x.0 .0 as u64));
        assert!(rest[..] == ids[(k + 1).min(n)..], "owned iterator goes on wrongly after nth");
        return None;
      }
      let mut it = gr.into_iter();
      let mut left = it.len();
      let mut r = vec![];
      while let Some((i, n)) = it.next() {
        assert!(left > 0 && it.len() == left - 1, "owned iterator misreports its length");
        left -= 1;
        r.push((i.0 as u64, n.read()));
      }
      assert!(left == 0 && it.next().is_none(), "owned iterator misreports its length");
      Some(r)
    })
  }
  fn dump(&self, g: usize) -> RRes<Dump> {
    guard(|| self.graphs[&g].iter().map(|(i, n)| (i.0 as u64, n.read())).collect())
  }
  fn views(&self, g: usize, dump: &Dump, absent: &[Id], typed: bool) -> RRes<Option<String>> {
    let gr = &self.graphs[&g];
    guard(|| {
      let byid: BTreeMap<Id, &MNode> = dump.iter().map(|(i, n)| (*i, n)).collect();
      if typed {
        for v in 0..self.schema.vars.len() {
          let name = self.schema.vars[v].name;
          for (i, n) in dump {
            let got = N::get_typed(gr, v, ni(*i));
            let want = if n.var == v { Some(n.clone()) } else { None };
            if got != want {
              return Some(format!("get_node!({name}, {i}) = {got:?}, expected {want:?}"));
            }
          }
          for i in absent {
            if let Some(n) = N::get_typed(gr, v, ni(*i)) {
              return Some(format!("get_node!({name}, {i}) finds {n:?}, which is not in the graph"));
            }
          }
          let mut got: Dump = N::iter_typed(gr, v).into_iter().map(|(i, n)| (i.0 as u64, n)).collect();
          let mut want: Dump = dump.iter().filter(|x| x.1.var == v).cloned().collect();
          got.sort_by_key(|x| x.0);
          want.sort_by_key(|x| x.0);
          if got != want {
            return Some(format!("iter_nodes!({name}) = {got:?}, expected {want:?}"));
          }
        }
        return None;
      }
      if byid.len() != dump.len() {
        return Some(format!("iter lists an index twice: {:?}", dump.iter().map(|x| x.0).collect::<Vec<_>>()));
      }
      if gr.len() != dump.len() || gr.is_empty() != dump.is_empty() {
        return Some(format!("len() = {}, is_empty() = {}, iter lists {}", gr.len(), gr.is_empty(), dump.len()));
      }
      for (i, n) in dump {
        match gr.get(ni(*i)) {
          Some(m) if m.read() == *n => {},
          o => return Some(format!("get({i}) = {:?}, iter says {n:?}", o.map(|m| m.read()))),
        }
      }
      for i in absent.iter().chain(&[0]) {
        if gr.get(ni(*i)).is_some() {
          return Some(format!("get({i}) finds a node that iter does not list"));
        }
      }
      let mut it = gr.iter();
      let mut left = dump.len();
      loop {
        if it.len() != left || it.size_hint() != (left, Some(left)) {
          return Some(format!("iter reports {:?} with {left} left", it.size_hint()));
        }
        if it.clone().count() != left {
          return Some("a clone of iter does not continue where it is".into());
        }
        if it.next().is_none() {
          break;
        }
        if left == 0 {
          return Some("iter yields more than it reports".into());
        }
        left -= 1;
      }
      if left != 0 || it.next().is_some() || it.next().is_some() {
        return Some("iter does not end properly".into());
      }
      let order: Vec<Id> = dump.iter().map(|x| x.0).collect();
      if let Some(e) = adaptors("iter", &order, &|| gr.iter().map(|(i, _)| i.0 as u64), &|k| {
        let mut it = gr.iter();
        let x = it.nth(k);
        (x.map(|x| x.0 .0 as u64), it.len(), it.next().map(|x| x.0 .0 as u64))
      }) {
        return Some(e);
      }
      let b: Vec<Id> = gr.into_iter().map(|(i, _)| i.0 as u64).collect();
      if b != dump.iter().map(|x| x.0).collect::<Vec<_>>() {
        return Some(format!("borrowed into_iter lists {b:?}"));
      }
      for v in 0..self.schema.vars.len() {
        let name = self.schema.vars[v].name;
        let mut it = gr.iter_type(N::disc(v));
        let mut got: Dump = vec![];
        loop {
          let l = it.len();
          match it.next() {
            Some((i, n)) => {
              if l == 0 || it.len() != l - 1 {
                return Some(format!("iter_type({name}) misreports its length"));
              }
              got.push((i.0 as u64, n.read()))
            },
            None => {
              if l != 0 || it.next().is_some() {
                return Some(format!("iter_type({name}) misreports its length"));
              }
              break;
            },
          }
        }
        let order: Vec<Id> = got.iter().map(|x| x.0).collect();
        if let Some(e) = adaptors("iter_type", &order, &|| gr.iter_type(N::disc(v)).map(|(i, _)| i.0 as u64), &|k| {
          let mut it = gr.iter_type(N::disc(v));
          let x = it.nth(k);
          (x.map(|x| x.0 .0 as u64), it.len(), it.next().map(|x| x.0 .0 as u64))
        }) {
          return Some(e);
        }
        let mut want: Dump = dump.iter().filter(|x| x.1.var == v).cloned().collect();
        got.sort_by_key(|x| x.0);
        want.sort_by_key(|x| x.0);
        if got != want {
          return Some(format!("iter_type({name}) = {got:?}, expected {want:?}"));
        }
      }
      for (gname, m) in self.schema.groups.iter().map(|x| (x.0, x.1.clone())).chain([("no_such_group", vec![])]) {
        let mut got: Dump = gr.iter_group(gname).map(|(i, n)| (i.0 as u64, n.read())).collect();
        let mut want: Dump = dump.iter().filter(|x| m.contains(&x.1.var)).cloned().collect();
        got.sort_by_key(|x| x.0);
        want.sort_by_key(|x| x.0);
        if got != want {
          return Some(format!("iter_group({gname}) = {got:?}, expected {want:?}"));
        }
      }
      let text = gr.to_string();
      let mut want: Vec<String> = dump.iter().map(|(i, n)| format!("{i}: <{}>", n.tag)).collect();
      let mut got: Vec<String> = text.lines().map(|l| l.trim().to_string()).filter(|l| l.contains(':')).collect();
      want.sort();
      got.sort();
      if dump.len() <= 12 {
        let text = format!("{gr:?}");
        for (i, _) in dump {
          let line = format!("{:?}: {:?}", ni(*i), gr.get(ni(*i)).unwrap());
          if text.lines().filter(|l| l.trim() == line).count() != 1 {
            return Some(format!("Debug does not show {line} once"));
          }
        }
      }
      if want != got {
        return Some(format!("Display shows {got:?}, expected {want:?}"));
      }
      None
    })
  }
  fn display(&self, g: usize) -> RRes<String> {
    guard(|| self.graphs[&g].to_string())
  }
  fn json(&self, g: usize) -> RRes<String> {
    guard(|| {
      // the context id is random
      hide_ids(&serde_json::to_string(&self.graphs[&g]).unwrap())
    })
  }
  fn integrity(&self, g: usize) -> RRes<()> {
    guard(|| self.graphs[&g].check_integrity())
  }
  fn take_obs(&mut self) -> Vec<(u64, MNode)> {
    std::mem::take(&mut *self.log.borrow_mut())
  }
  fn rebuild(&mut self, nodes: &Dump, ctx: usize, g: usize) -> RRes<BTreeMap<Id, Id>> {
    self.new_graph(g, ctx)?;
    let t = usize::MAX;
    self.begin(t, ctx)?;
    let m = self.rebuild_into(t, nodes)?;
    self.commit(t, g)?;
    Ok(m)
  }
  fn rebuild_into(&mut self, t: usize, nodes: &Dump) -> RRes<BTreeMap<Id, Id>> {
    let tr = self.trans.get_mut(&t).unwrap();
    guard(|| {
      let m: BTreeMap<Id, Id> = nodes.iter().map(|(i, _)| (*i, tr.alloc_untyped().0 as u64)).collect();
      for (i, n) in nodes {
        let n = n.map(&mut |x| *m.get(&x).unwrap_or(&x));
        tr.fill_back_untyped(ni(m[i]), N::make(&n));
      }
      m
    })
  }
  fn forget_graph(&mut self, g: usize) {
    self.graphs.remove(&g);
  }
}
