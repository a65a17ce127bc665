//! Symbolic histories: what a client does, in terms of harness handles (never of real indexes).
use crate::schema::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Edit {
  Val(i64),
  D(usize, Id),
  VPush(usize, Id),
  VSet(usize, usize, Id),
  VDel(usize, usize),
  VClear(usize),
  SIns(usize, Id),
  SDel(usize, Id),
  SClear(usize),
  /// becomes another node altogether, possibly of another variant
  Replace(MNode),
}
impl Edit {
  pub fn apply(&self, n: &mut MNode) {
    match self {
      Edit::Val(v) => n.val = *v,
      Edit::Replace(m) => *n = m.clone(),
      Edit::D(f, x) => {
        if let Some(Link::D(y)) = n.links.get_mut(*f) {
          *y = *x
        }
      },
      Edit::VPush(f, x) => {
        if let Some(Link::V(v)) = n.links.get_mut(*f) {
          v.push(*x)
        }
      },
      Edit::VSet(f, i, x) => {
        if let Some(Link::V(v)) = n.links.get_mut(*f) {
          if !v.is_empty() {
            let i = *i % v.len();
            v[i] = *x
          }
        }
      },
      Edit::VDel(f, i) => {
        if let Some(Link::V(v)) = n.links.get_mut(*f) {
          if !v.is_empty() {
            let i = *i % v.len();
            v.remove(i);
          }
        }
      },
      Edit::VClear(f) => {
        if let Some(Link::V(v)) = n.links.get_mut(*f) {
          v.clear()
        }
      },
      Edit::SIns(f, x) => {
        if let Some(Link::S(s)) = n.links.get_mut(*f) {
          s.insert(*x);
        }
      },
      Edit::SDel(f, x) => {
        if let Some(Link::S(s)) = n.links.get_mut(*f) {
          s.remove(x);
        }
      },
      Edit::SClear(f) => {
        if let Some(Link::S(s)) = n.links.get_mut(*f) {
          s.clear()
        }
      },
    }
  }
  pub fn map(&self, m: &mut dyn FnMut(Id) -> Id) -> Edit {
    match self {
      Edit::D(f, x) => Edit::D(*f, m(*x)),
      Edit::VPush(f, x) => Edit::VPush(*f, m(*x)),
      Edit::VSet(f, i, x) => Edit::VSet(*f, *i, m(*x)),
      Edit::SIns(f, x) => Edit::SIns(*f, m(*x)),
      Edit::SDel(f, x) => Edit::SDel(*f, m(*x)),
      Edit::Replace(n) => Edit::Replace(n.map(m)),
      e => e.clone(),
    }
  }
}
pub fn map_edits(e: &[Edit], m: &mut dyn FnMut(Id) -> Id) -> Vec<Edit> {
  e.iter().map(|x| x.map(m)).collect()
}

/// Whether a step uses the library's operation, or (as a counterfactual) an equivalent made of
/// plain allocations and insertions.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum How {
  Native,
  Rebuild,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum OpK {
  Insert { h: Id, node: MNode },
  /// the handles are bound to indexes after the commit
  Extend { items: Vec<(Id, MNode)> },
  Alloc { h: Id, var: Option<usize>, mac: bool },
  Fill { h: Id, node: MNode, untyped: bool },
  Remove { h: Id },
  Mutate { h: Id, edits: Vec<Edit>, typed: Option<usize> },
  Update { h: Id, edits: Vec<Edit>, typed: Option<usize> },
  Redirect { a: Id, b: Id },
  RedirectAll { a: Id, b: Id },
  Merge { g: usize, how: How },
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Op {
  pub uid: u64,
  pub k: OpK,
}
impl Op {
  /// rewrite the handles that the operation refers to (not those it defines)
  pub fn map_refs(&self, m: &mut dyn FnMut(Id) -> Id) -> Op {
    let k = match &self.k {
      OpK::Insert { h, node } => OpK::Insert { h: *h, node: node.map(m) },
      OpK::Extend { items } => OpK::Extend { items: items.iter().map(|(h, n)| (*h, n.map(m))).collect() },
      OpK::Fill { h, node, untyped } => OpK::Fill { h: *h, node: node.map(m), untyped: *untyped },
      OpK::Mutate { h, edits, typed } => OpK::Mutate { h: *h, edits: map_edits(edits, m), typed: *typed },
      OpK::Update { h, edits, typed } => OpK::Update { h: *h, edits: map_edits(edits, m), typed: *typed },
      k => k.clone(),
    };
    Op { uid: self.uid, k }
  }
  pub fn defines(&self) -> Vec<Id> {
    match &self.k {
      OpK::Insert { h, .. } | OpK::Alloc { h, .. } => vec![*h],
      OpK::Extend { items } => items.iter().map(|x| x.0).collect(),
      _ => vec![],
    }
  }
  /// handle that the operation is about, if it must exist
  pub fn subject(&self) -> Vec<Id> {
    match &self.k {
      OpK::Fill { h, .. } | OpK::Remove { h } | OpK::Mutate { h, .. } | OpK::Update { h, .. } => vec![*h],
      OpK::Redirect { a, b } | OpK::RedirectAll { a, b } => vec![*a, *b],
      _ => vec![],
    }
  }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum CtxSel {
  New { default: bool },
  Of(usize),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Chk {
  /// 0 node, 1 link added, 2 link removed
  pub kind: u8,
  pub name: String,
  /// registered and removed again before the commit
  pub removed: bool,
  /// fails when called about this node
  pub fail: Option<Id>,
  /// how it was registered: 1 in place of another check, 2 after another check was removed,
  /// 3 after removing what was never registered
  #[serde(default)]
  pub before: u8,
}

/// A serialized form as another program may have written it: the nodes in another order, all
/// indexes shifted, and one side of some bidirectional links missing.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Craft {
  pub order: u64,
  pub shift: Id,
  /// links left out: source, field, target
  pub less: Vec<(Id, usize, Id)>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Step {
  NewGraph { g: usize, ctx: CtxSel },
  Begin { t: usize, g: usize },
  Op { t: usize, op: Op },
  Commit { t: usize, g: usize, checks: Option<Vec<Chk>> },
  /// 0 give_up, 1 plain drop
  GiveUp { t: usize, how: u8 },
  Switch { g: usize, to: CtxSel, uid: u64, how: How },
  /// mode 0 text, 1 helper struct and text, 2 json value, 3 helper struct only, 4 bincode, 5 cbor;
  /// with `keep` the original graph stays and the copy goes to the new slot
  SerDe { g: usize, uid: u64, mode: u8, keep: Option<usize>, how: How, #[serde(default)] craft: Option<Craft> },
  /// 0 drop, 1 into_iter
  DropGraph { g: usize, mode: u8 },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct History {
  pub schema: String,
  pub steps: Vec<Step>,
}

/// Handle of the node that handle `h` becomes after a switch or a deserialization
pub fn relabel(h: Id, uid: u64) -> Id {
  if h == 0 {
    0
  } else {
    // injective for all practical purposes; the model refuses collisions
    (mix(h ^ mix(uid + 77)) >> 16) | (1 << 47)
  }
}
