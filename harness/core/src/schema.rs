//! The harness' own description of a node schema, the traits that the generated schemas
//! implement, and the drop counted payload that every node carries.
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::Hash;
use ttgraph::{Graph, NodeEnum, NodeIndex, Transaction};

pub type Id = u64;

/// Content of one link field. Ids are harness handles in the model, node indexes on the real side.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Link {
  D(Id),
  V(Vec<Id>),
  S(BTreeSet<Id>),
}
impl Link {
  pub fn ids(&self) -> Vec<Id> {
    match self {
      Link::D(x) => vec![*x],
      Link::V(v) => v.clone(),
      Link::S(s) => s.iter().copied().collect(),
    }
  }
  pub fn contains(&self, x: Id) -> bool {
    match self {
      Link::D(y) => *y == x,
      Link::V(v) => v.contains(&x),
      Link::S(s) => s.contains(&x),
    }
  }
  pub fn map(&self, f: &mut dyn FnMut(Id) -> Id) -> Link {
    match self {
      Link::D(x) => Link::D(f(*x)),
      Link::V(v) => Link::V(v.iter().map(|x| f(*x)).collect()),
      Link::S(s) => Link::S(s.iter().map(|x| f(*x)).collect()),
    }
  }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct MNode {
  pub var: usize,
  pub tag: u64,
  pub val: i64,
  pub links: Vec<Link>,
}
impl MNode {
  pub fn map(&self, f: &mut dyn FnMut(Id) -> Id) -> MNode {
    MNode { var: self.var, tag: self.tag, val: self.val, links: self.links.iter().map(|l| l.map(f)).collect() }
  }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
  Direct,
  Vec,
  HashSet,
  BTreeSet,
  OrderSet,
  IndexSet,
}
impl Kind {
  pub fn is_set(self) -> bool {
    !matches!(self, Kind::Direct | Kind::Vec)
  }
  pub fn empty(self) -> Link {
    match self {
      Kind::Direct => Link::D(0),
      Kind::Vec => Link::V(vec![]),
      _ => Link::S(BTreeSet::new()),
    }
  }
}

#[derive(Clone, Debug)]
pub struct Field {
  pub name: &'static str,
  pub kind: Kind,
  pub groups: Vec<&'static str>,
}
impl Field {
  pub fn new(name: &'static str, kind: Kind, groups: &[&'static str]) -> Field {
    Field { name, kind, groups: groups.to_vec() }
  }
}

#[derive(Clone, Debug)]
pub struct Var {
  pub name: &'static str,
  pub fields: Vec<Field>,
  pub phantom: Vec<&'static str>,
  pub data: Vec<&'static str>,
}
impl Var {
  pub fn new(name: &'static str, fields: Vec<Field>, phantom: &[&'static str], data: &[&'static str]) -> Var {
    Var { name, fields, phantom: phantom.to_vec(), data: data.to_vec() }
  }
}

#[derive(Clone, Debug)]
pub struct Schema {
  pub name: &'static str,
  pub vars: Vec<Var>,
  pub groups: Vec<(&'static str, Vec<usize>)>,
  /// opp[var][field] = the fields that may hold the counterpart of a link
  pub opp: Vec<Vec<Vec<(usize, usize)>>>,
  /// allowed[var][field] = the conjunction of all type declarations that apply
  pub allowed: Vec<Vec<Option<BTreeSet<usize>>>>,
  pub has_bidi: bool,
  pub has_ltypes: bool,
  pub hashfree: bool,
}
impl Schema {
  pub fn new(
    name: &'static str, vars: Vec<Var>, groups: Vec<(&'static str, Vec<&'static str>)>,
    bidi: Vec<(&'static str, &'static str)>, ltypes: Vec<(&'static str, Vec<&'static str>)>,
  ) -> Schema {
    let vi = |n: &str| vars.iter().position(|v| v.name == n);
    let groups: Vec<(&'static str, Vec<usize>)> =
      groups.into_iter().map(|(g, m)| (g, m.iter().map(|x| vi(x).expect("variant")).collect())).collect();
    let vars_of = |n: &str| -> Vec<usize> {
      match vi(n) {
        Some(v) => vec![v],
        None => groups.iter().find(|g| g.0 == n).expect("group").1.clone(),
      }
    };
    let fields_of = |v: usize, l: &str| -> Vec<usize> {
      (0..vars[v].fields.len()).filter(|f| vars[v].fields[*f].name == l || vars[v].fields[*f].groups.contains(&l)).collect()
    };
    let side = |s: &str| -> Vec<(usize, usize)> {
      let (a, l) = s.split_once('.').unwrap();
      vars_of(a).into_iter().flat_map(|v| fields_of(v, l).into_iter().map(move |f| (v, f))).collect()
    };
    let mut opp: Vec<Vec<Vec<(usize, usize)>>> = vars.iter().map(|v| vec![vec![]; v.fields.len()]).collect();
    for (a, b) in &bidi {
      let (sa, sb) = (side(a), side(b));
      for x in &sa {
        for y in &sb {
          if !opp[x.0][x.1].contains(y) {
            opp[x.0][x.1].push(*y);
          }
          if !opp[y.0][y.1].contains(x) {
            opp[y.0][y.1].push(*x);
          }
        }
      }
    }
    let mut allowed: Vec<Vec<Option<BTreeSet<usize>>>> = vars.iter().map(|v| vec![None; v.fields.len()]).collect();
    for (l, t) in &ltypes {
      let ts: BTreeSet<usize> = t.iter().flat_map(|x| vars_of(x)).collect();
      for (v, f) in side(l) {
        let a = &mut allowed[v][f];
        *a = Some(match a.take() {
          None => ts.clone(),
          Some(o) => o.intersection(&ts).copied().collect(),
        });
      }
    }
    let hashfree = vars.iter().all(|v| v.fields.iter().all(|f| f.kind != Kind::HashSet));
    Schema { name, groups, opp, allowed, has_bidi: !bidi.is_empty(), has_ltypes: !ltypes.is_empty(), hashfree, vars }
  }
  pub fn nfields(&self, v: usize) -> usize {
    self.vars[v].fields.len()
  }
  /// fields of variant `w` that can hold the counterpart of a link in field (v, f)
  pub fn opp_in(&self, v: usize, f: usize, w: usize) -> Vec<usize> {
    self.opp[v][f].iter().filter(|x| x.0 == w).map(|x| x.1).collect()
  }
  pub fn is_bidi(&self, v: usize, f: usize) -> bool {
    !self.opp[v][f].is_empty()
  }
}

// ---------------------------------------------------------------- payloads

thread_local! {
  static LIVE: RefCell<HashMap<u64, i64>> = RefCell::new(HashMap::new());
}
/// A payload whose creations and drops are counted (per thread).
#[derive(Debug)]
pub struct Tag(pub u64);
fn bump(t: u64, d: i64) {
  let _ = LIVE.try_with(|l| {
    let mut l = l.borrow_mut();
    let e = l.entry(t).or_insert(0);
    *e += d;
    if *e == 0 {
      l.remove(&t);
    }
  });
}
impl Tag {
  pub fn new(t: u64) -> Tag {
    bump(t, 1);
    Tag(t)
  }
  pub fn reset() {
    LIVE.with(|l| l.borrow_mut().clear());
  }
  /// sets the census aside
  pub fn replace(l: HashMap<u64, i64>) -> HashMap<u64, i64> {
    LIVE.with(|x| std::mem::replace(&mut *x.borrow_mut(), l))
  }
  pub fn live() -> BTreeMap<u64, i64> {
    LIVE.with(|l| l.borrow().iter().map(|(k, v)| (*k, *v)).collect())
  }
}
impl Drop for Tag {
  fn drop(&mut self) {
    bump(self.0, -1);
  }
}
impl Serialize for Tag {
  fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
    s.serialize_u64(self.0)
  }
}
impl<'de> Deserialize<'de> for Tag {
  fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    u64::deserialize(d).map(Tag::new)
  }
}

// ---------------------------------------------------------------- fields

pub trait LinkField {
  fn rd(&self) -> Link;
  fn wr(l: &Link) -> Self;
}
fn n(i: Id) -> NodeIndex {
  NodeIndex(i as usize)
}
impl LinkField for NodeIndex {
  fn rd(&self) -> Link {
    Link::D(self.0 as u64)
  }
  fn wr(l: &Link) -> Self {
    match l {
      Link::D(x) => n(*x),
      _ => unreachable!(),
    }
  }
}
impl LinkField for Vec<NodeIndex> {
  fn rd(&self) -> Link {
    Link::V(self.iter().map(|x| x.0 as u64).collect())
  }
  fn wr(l: &Link) -> Self {
    match l {
      Link::V(v) => v.iter().map(|x| n(*x)).collect(),
      _ => unreachable!(),
    }
  }
}
macro_rules! set_field {
  ($t:ty) => {
    impl LinkField for $t {
      fn rd(&self) -> Link {
        let s: BTreeSet<Id> = self.iter().map(|x| x.0 as u64).collect();
        // a set that lists an element twice is broken
        assert!(s.len() == self.len(), "set field lists an element twice");
        for x in self.iter() {
          assert!(self.contains(x), "set field does not find its own element");
        }
        Link::S(s)
      }
      fn wr(l: &Link) -> Self {
        match l {
          Link::S(v) => v.iter().map(|x| n(*x)).collect(),
          _ => unreachable!(),
        }
      }
    }
  };
}
set_field!(HashSet<NodeIndex>);
set_field!(BTreeSet<NodeIndex>);
set_field!(ordermap::OrderSet<NodeIndex>);
set_field!(indexmap::IndexSet<NodeIndex>);

pub trait DataField {
  fn mk(v: i64) -> Self;
  fn eqv(&self, v: i64) -> bool;
}
macro_rules! data_field {
  ($t:ty, $v:ident, $e:expr) => {
    impl DataField for $t {
      fn mk($v: i64) -> Self {
        $e
      }
      fn eqv(&self, v: i64) -> bool {
        *self == <$t as DataField>::mk(v)
      }
    }
  };
}
data_field!(String, v, format!("s\"{v}\n"));
data_field!((i64, bool), v, (v, v % 2 == 0));
data_field!([u8; 3], v, [v as u8, (v >> 8) as u8, 7]);
data_field!(Option<String>, v, if v % 3 == 0 { None } else { Some(v.to_string()) });
data_field!(Vec<u8>, v, vec![1; (v.rem_euclid(5)) as usize]);
data_field!(u64, v, u64::MAX ^ (v as u64));
data_field!(Box<i64>, v, Box::new(-v));
data_field!(Option<NodeIndex>, v, if v % 2 == 0 { None } else { Some(NodeIndex((v.rem_euclid(9)) as usize)) });
data_field!(BTreeMap<String, i64>, v, (0..v.rem_euclid(3)).map(|i| (format!("k{i}"), v)).collect());
data_field!((NodeIndex, i64), v, (NodeIndex((v.rem_euclid(7)) as usize), v));
data_field!(char, v, char::from_u32(97 + (v.rem_euclid(26)) as u32).unwrap());

// ---------------------------------------------------------------- nodes

pub trait VStruct: Sized {
  fn make(tag: Tag, val: i64, l: &[Link]) -> Self;
  fn rd(&self) -> Vec<Link>;
  fn wr(&mut self, val: i64, l: &[Link]);
  fn val(&self) -> i64;
  fn tag(&self) -> u64;
  fn reflect_data(&self, out: &mut crate::reflect::Reflect);
}
pub trait VStructDyn {
  fn rd(&self) -> Vec<Link>;
  fn wr(&mut self, val: i64, l: &[Link]);
  fn val(&self) -> i64;
  fn tag(&self) -> u64;
}
impl<T: VStruct> VStructDyn for T {
  fn rd(&self) -> Vec<Link> {
    VStruct::rd(self)
  }
  fn wr(&mut self, val: i64, l: &[Link]) {
    VStruct::wr(self, val, l)
  }
  fn val(&self) -> i64 {
    VStruct::val(self)
  }
  fn tag(&self) -> u64 {
    VStruct::tag(self)
  }
}
pub type StructFn = Box<dyn FnOnce(usize, &mut dyn VStructDyn)>;

pub trait VNode: NodeEnum + Sized + std::fmt::Debug + std::fmt::Display + Serialize + for<'d> Deserialize<'d> + 'static {
  fn schema() -> Schema;
  fn make(n: &MNode) -> Self;
  fn vs(&self) -> &dyn VStructDyn;
  fn vs_mut(&mut self) -> &mut dyn VStructDyn;
  fn var(&self) -> usize;
  fn disc(v: usize) -> Self::Discriminant;
  fn get_typed(g: &Graph<Self>, v: usize, i: NodeIndex) -> Option<MNode>;
  fn iter_typed(g: &Graph<Self>, v: usize) -> Vec<(NodeIndex, MNode)>;
  fn alloc_typed(t: &mut Transaction<'static, Self>, v: usize) -> NodeIndex;
  fn mut_typed(t: &mut Transaction<'static, Self>, v: usize, i: NodeIndex, f: StructFn);
  fn upd_typed(t: &mut Transaction<'static, Self>, v: usize, i: NodeIndex, f: StructFn);
  fn reflect(&self, out: &mut crate::reflect::Reflect);
  fn reflect_ops(&self, out: &mut crate::reflect::Reflect, seed: u64);
  fn data_val(&self) -> Option<i64>;
  /// the handle of field `f` of variant `v`, and of a field or group by name
  #[cfg(not(feature = "noreflect"))]
  fn mirror(v: usize, f: usize) -> Self::LinkMirrorEnum;
  #[cfg(not(feature = "noreflect"))]
  fn log(v: usize, name: &'static str) -> Option<Self::LoGMirrorEnum>;
  fn read(&self) -> MNode {
    let s = self.vs();
    MNode { var: self.var(), tag: s.tag(), val: s.val(), links: s.rd() }
  }
}
thread_local! {
  static EVALS: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
/// an argument of a macro, which must be evaluated once
pub fn ev<T>(x: T) -> T {
  EVALS.with(|c| c.set(c.get() + 1));
  x
}
pub fn evals_replace(n: u32) -> u32 {
  EVALS.with(|c| c.replace(n))
}
/// runs a macro call with `n` counted arguments
pub fn evaluates<R>(n: u32, what: &str, f: impl FnOnce() -> R) -> R {
  EVALS.with(|c| c.set(0));
  let r = f();
  let got = EVALS.with(|c| c.get());
  assert!(got == n, "{what} evaluated its {n} arguments {got} times in total");
  r
}
pub fn read_struct<T: VStruct>(var: usize, x: &T) -> MNode {
  MNode { var, tag: x.tag(), val: x.val(), links: VStruct::rd(x) }
}

// ---------------------------------------------------------------- random numbers

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
  pub fn new(seed: u64) -> Rng {
    let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
    r.next();
    r
  }
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
    mix(self.0)
  }
  pub fn below(&mut self, n: usize) -> usize {
    ((self.next() >> 11) % (n.max(1) as u64)) as usize
  }
  pub fn range(&mut self, a: usize, b: usize) -> usize {
    a + self.below(b - a + 1)
  }
  pub fn p(&mut self, x: f64) -> bool {
    ((self.next() >> 11) as f64) < x * (1u64 << 53) as f64
  }
  pub fn pick<'a, T>(&mut self, v: &'a [T]) -> Option<&'a T> {
    if v.is_empty() {
      None
    } else {
      Some(&v[self.below(v.len())])
    }
  }
  pub fn weighted(&mut self, w: &[f64]) -> usize {
    let t: f64 = w.iter().sum();
    let mut x = (self.next() >> 11) as f64 / (1u64 << 53) as f64 * t;
    for (i, v) in w.iter().enumerate() {
      if x < *v {
        return i;
      }
      x -= v;
    }
    w.iter().rposition(|v| *v > 0.0).unwrap_or(0)
  }
}
pub fn mix(mut z: u64) -> u64 {
  z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
  z ^ (z >> 31)
}
