//! C14: compares what the derived reflection of a node says with the declaration and contents.
//! Left out (feature noreflect) if the reflection interface itself changed; nothing else needs it.
#![cfg_attr(any(feature = "noreflect", feature = "nodeclared"), allow(unused))]
use crate::schema::*;
use std::collections::BTreeSet;
#[cfg(not(feature = "noreflect"))]
use ttgraph::{LinkType, TypedNode};
use ttgraph::NodeIndex;

/// A type that no data field has
#[derive(Debug)]
pub struct Wrong;

pub struct Reflect {
  pub schema: Schema,
  pub node: MNode,
  pub err: Option<String>,
  pub checks: u64,
}
impl Reflect {
  pub fn new(schema: Schema, node: MNode) -> Reflect {
    Reflect { schema, node, err: None, checks: 0 }
  }
  fn ok(&mut self, good: bool, msg: impl FnOnce() -> String) {
    self.checks += 1;
    if !good && self.err.is_none() {
      self.err = Some(format!("{} {:?}: {}", self.schema.vars[self.node.var].name, self.node, msg()));
    }
  }
  pub fn data_ref<T>(&mut self, name: &str, field: &T, got: Option<&T>) {
    let good = got.is_some_and(|g| std::ptr::eq(g, field));
    self.ok(good, || format!("data_ref_by_name({name:?}) with the declared type does not give the field (found: {})", got.is_some()));
  }
  pub fn data_wrong(&mut self, name: &str, found: bool) {
    self.ok(!found, || format!("data_ref_by_name({name:?}) finds something under a wrong type or name"));
  }
}

fn leak(s: &str) -> &'static str {
  // names come from static descriptions, unknown ones are few
  Box::leak(s.to_string().into_boxed_str())
}
fn ids(it: impl Iterator<Item = NodeIndex>) -> Vec<Id> {
  it.map(|x| x.0 as u64).collect()
}
fn sorted(mut v: Vec<Id>) -> Vec<Id> {
  v.sort();
  v
}
fn live(l: &Link) -> Vec<Id> {
  l.ids().into_iter().filter(|x| *x != 0).collect()
}
/// vectors keep their order, sets do not
fn same(kind: Kind, got: Vec<Id>, want: Vec<Id>) -> bool {
  if kind.is_set() {
    sorted(got) == sorted(want)
  } else {
    got == want
  }
}
fn ni(x: Id) -> NodeIndex {
  NodeIndex(x as usize)
}

#[cfg(not(feature = "noreflect"))]
pub fn reflect_struct<T: TypedNode + VStruct>(var: usize, x: &T, out: &mut Reflect) {
  let decl = out.schema.vars[var].clone();
  let n = out.node.clone();
  let names = T::link_names();
  let want: Vec<&str> = decl.fields.iter().map(|f| f.name).collect();
  out.ok(names == want, || format!("link_names() = {names:?}, declared {want:?}"));
  let types = T::link_types();
  let want: Vec<LinkType> = decl
    .fields
    .iter()
    .map(|f| match f.kind {
      Kind::Direct => LinkType::Point,
      Kind::Vec => LinkType::Vec,
      _ => LinkType::Set,
    })
    .collect();
  out.ok(types == want, || format!("link_types() = {types:?}, declared {want:?}"));
  let dn: BTreeSet<&str> = T::data_names().iter().copied().collect();
  let want: BTreeSet<&str> = decl.data.iter().copied().collect();
  out.ok(dn == want && T::data_names().len() == want.len(), || format!("data_names() = {:?}, declared {want:?}", T::data_names()));
  let mirrors = T::link_mirrors();
  out.ok(mirrors.len() == decl.fields.len(), || format!("link_mirrors() = {mirrors:?}"));
  if out.err.is_some() {
    return;
  }
  let distinct: BTreeSet<_> = mirrors.iter().collect();
  out.ok(distinct.len() == mirrors.len(), || format!("link_mirrors() repeats: {mirrors:?}"));
  let absent: Vec<Id> = (1..60).filter(|i| n.links.iter().all(|l| !l.contains(*i))).take(2).collect();
  let mut all: Vec<(Id, T::LinkMirror)> = vec![];
  for (i, f) in decl.fields.iter().enumerate() {
    let m = mirrors[i];
    let want = live(&n.links[i]);
    all.extend(want.iter().map(|y| (*y, m)));
    let got = ids(x.iter_links(m));
    out.ok(same(f.kind, got.clone(), want.clone()), || format!("iter_links({}) = {got:?}, expected {want:?}", f.name));
    let got = ids(x.get_links_by_name(f.name));
    out.ok(same(f.kind, got.clone(), want.clone()), || format!("get_links_by_name({}) = {got:?}, expected {want:?}", f.name));
    for y in &want {
      out.ok(x.contains_link(m, ni(*y)), || format!("contains_link({}, {y}) is false", f.name));
    }
    for y in absent.iter().copied().chain(n.links.iter().flat_map(live)).filter(|y| !want.contains(y)) {
      out.ok(!x.contains_link(m, ni(y)), || format!("contains_link({}, {y}) is true", f.name));
    }
    if f.kind == Kind::Direct && want.is_empty() {
      out.ok(!x.contains_link(m, NodeIndex::empty()), || format!("contains_link({}, empty) of an empty link is true", f.name));
    }
    let got: BTreeSet<_> = T::to_link_or_groups(m).iter().copied().collect();
    let want: BTreeSet<_> =
      f.groups.iter().chain([&f.name]).map(|g| T::get_link_or_group_by_name(g)).collect::<Vec<_>>().into_iter().flatten().collect();
    out.ok(got == want && want.len() == f.groups.len() + 1, || {
      format!("to_link_or_groups({}) = {got:?}, expected {want:?} for groups {:?}", f.name, f.groups)
    });
  }
  let src: Vec<_> = x.iter_sources().collect();
  let ds: BTreeSet<_> = src.iter().collect();
  out.ok(ds.len() == src.len(), || format!("iter_sources lists a source twice: {src:?}"));
  let mut got: Vec<(Id, T::LinkMirror)> = src.iter().map(|(y, s)| (y.0 as u64, T::to_link_mirror(*s))).collect();
  got.sort();
  all.sort();
  out.ok(got == all, || format!("iter_sources gives {got:?}, expected {all:?}"));
  for (y, s) in &src {
    let m = T::to_link_mirror(*s);
    let Some(i) = mirrors.iter().position(|k| *k == m) else {
      out.ok(false, || format!("source {s:?} has mirror {m:?}, which is not listed"));
      continue;
    };
    if decl.fields[i].kind != Kind::Vec {
      out.ok(T::to_source(m) == *s, || format!("to_source({m:?}) is not the source of {y:?}"));
    }
  }
  // groups of the links
  let groups: BTreeSet<&'static str> = decl.fields.iter().flat_map(|f| f.groups.iter().copied()).collect();
  for g in &groups {
    let want: Vec<Id> = decl.fields.iter().enumerate().filter(|(_, f)| f.groups.contains(g)).flat_map(|(i, _)| live(&n.links[i])).collect();
    let got: Vec<Id> = ids(x.get_links_by_group(g).into_iter());
    out.ok(sorted(got.clone()) == sorted(want.clone()), || format!("get_links_by_group({g}) = {got:?}, expected {want:?}"));
    out.ok(T::get_link_or_group_by_name(g).is_some(), || format!("get_link_or_group_by_name({g}) finds nothing"));
  }
  for g in &decl.phantom {
    if !groups.contains(g) {
      out.ok(x.get_links_by_group(g).is_empty(), || format!("get_links_by_group({g}) of a phantom group is not empty"));
    }
    out.ok(T::get_link_or_group_by_name(g).is_some(), || format!("get_link_or_group_by_name({g}) of a phantom group finds nothing"));
  }
  let known: Vec<_> =
    decl.fields.iter().map(|f| f.name).chain(groups.iter().copied()).chain(decl.phantom.iter().copied()).collect::<BTreeSet<_>>().into_iter().collect();
  let logs: BTreeSet<_> = known.iter().filter_map(|g| T::get_link_or_group_by_name(g)).collect();
  out.ok(logs.len() == known.len(), || format!("get_link_or_group_by_name confuses some of {known:?}"));
  for g in ["no_such_link", "tag", "val", ""] {
    out.ok(T::get_link_or_group_by_name(g).is_none(), || format!("get_link_or_group_by_name({g:?}) finds something"));
    out.ok(x.get_links_by_name(g).next().is_none(), || format!("get_links_by_name({g:?}) finds something"));
    out.ok(x.get_links_by_group(g).is_empty(), || format!("get_links_by_group({g:?}) finds something"));
  }
}

/// changes through reflection, on a copy
#[cfg(not(feature = "noreflect"))]
pub fn reflect_struct_ops<T: TypedNode + VStruct>(var: usize, x: &T, out: &mut Reflect, seed: u64) {
  let mut r = Rng::new(seed);
  let decl = out.schema.vars[var].clone();
  if decl.fields.is_empty() {
    return;
  }
  let mut m = MNode { var, tag: 77, val: x.val(), links: VStruct::rd(x) };
  let mut c = T::make(Tag::new(77), m.val, &m.links);
  let mirrors = T::link_mirrors();
  if mirrors.len() != decl.fields.len() {
    return;
  }
  for step in 0..12 {
    let before = m.clone();
    let f = r.below(decl.fields.len());
    let fname = decl.fields[f].name;
    let kind = decl.fields[f].kind;
    let here = live(&m.links[f]);
    let y = if !here.is_empty() && r.p(0.4) { here[r.below(here.len())] } else { r.range(1, 9) as u64 };
    let what;
    let (got, want): (Vec<bool>, Vec<bool>);
    match r.below(3) {
      0 if kind != Kind::Vec => {
        what = format!("add_link({fname}, {y})");
        let w = match &mut m.links[f] {
          Link::D(z) if *z == 0 => {
            *z = y;
            true
          },
          // an occupied direct link to another node is a conflict, which panics
          Link::D(z) if *z != y => continue,
          Link::D(_) => false,
          Link::S(s) => s.insert(y),
          _ => unreachable!(),
        };
        got = vec![c.add_link(mirrors[f], ni(y))];
        want = vec![w];
      },
      1 if kind != Kind::Vec => {
        what = format!("remove_link({fname}, {y})");
        let w = match &mut m.links[f] {
          Link::D(z) => {
            let w = *z == y;
            if w {
              *z = 0;
            }
            w
          },
          Link::S(s) => s.remove(&y),
          _ => unreachable!(),
        };
        got = vec![c.remove_link(mirrors[f], ni(y))];
        want = vec![w];
      },
      _ => {
        let src: Vec<_> = c.iter_sources().collect();
        let Some((old, s)) = r.pick(&src).copied() else { continue };
        let old_id = old.0 as u64;
        let new = if r.p(0.25) {
          0
        } else if r.p(0.15) {
          old_id
        } else {
          r.range(1, 9) as u64
        };
        let Some(f) = mirrors.iter().position(|k| *k == T::to_link_mirror(s)) else {
          out.ok(false, || format!("source {s:?} has no listed mirror"));
          return;
        };
        what = format!("modify_link({s:?}, {old_id}, {new})");
        match &mut m.links[f] {
          Link::D(z) => {
            want = vec![*z != new, *z != new && new != 0];
            *z = new;
          },
          Link::S(z) => {
            z.remove(&old_id);
            let a = if new != 0 { z.insert(new) } else { false };
            // (removed, added): an element replaced by itself is reported either way
            want = if new == old_id { vec![] } else { vec![true, a] };
          },
          Link::V(z) => {
            // exactly one slot that held the old target changes; which one is named by the source
            let k = src.iter().filter(|(_, s2)| T::to_link_mirror(*s2) == mirrors[f]).position(|(_, s2)| *s2 == s).unwrap();
            let slots: Vec<usize> = (0..z.len()).filter(|i| z[*i] != 0).collect();
            let slot = slots[k];
            want = vec![z[slot] != new, z[slot] != new && new != 0];
            z[slot] = new;
          },
        }
        let (a, b) = c.modify_link(s, old, ni(new));
        got = if want.is_empty() { vec![] } else { vec![a, b] };
      },
    }
    let now = MNode { var, tag: c.tag(), val: c.val(), links: VStruct::rd(&c) };
    out.ok(got == want, || format!("step {step}: {what} on {before:?} reported {got:?}, expected {want:?}"));
    out.ok(now == m, || format!("step {step}: {what} on {before:?} gave {now:?}, expected {m:?}"));
    if out.err.is_some() {
      return;
    }
  }
  let save = std::mem::replace(&mut out.node, m);
  reflect_struct(var, &c, out);
  out.node = save;
}

/// the same through the enum of all node types
#[cfg(not(feature = "noreflect"))]
pub fn reflect_enum<N: VNode>(n: &N, other: &N, out: &mut Reflect) {
  let s = out.schema.clone();
  let m = out.node.clone();
  let decl = &s.vars[m.var];
  for (g, vs) in &s.groups {
    let got = n.in_group(g);
    let want = vs.contains(&m.var);
    out.ok(got == want, || format!("in_group({g}) is {got}"));
  }
  for g in ["no_such_group", "", decl.name] {
    if s.groups.iter().all(|x| x.0 != g) {
      out.ok(!n.in_group(g), || format!("in_group({g:?}) is true"));
    }
  }
  let disc = n.discriminant();
  for v in 0..s.vars.len() {
    out.ok((N::disc(v) == disc) == (v == m.var), || format!("discriminant {disc:?} does not identify the variant"));
  }
  let dv = n.data_val();
  out.ok(dv == Some(m.val), || format!("data_ref_by_name::<i64>(\"val\") is {dv:?}"));
  out.ok(n.data_ref_by_name::<Wrong>("val").is_none() && n.data_ref_by_name::<i64>(leak("vax")).is_none(), || {
    "data_ref_by_name finds something under a wrong type or name".into()
  });
  for (i, f) in decl.fields.iter().enumerate() {
    let want = live(&m.links[i]);
    let got = ids(n.get_links_by_name(f.name));
    out.ok(same(f.kind, got.clone(), want.clone()), || format!("get_links_by_name({}) = {got:?}, expected {want:?}", f.name));
  }
  let groups: BTreeSet<&'static str> = s.vars.iter().flat_map(|v| v.fields.iter().flat_map(|f| f.groups.iter().copied())).collect();
  for g in &groups {
    let want: Vec<Id> = decl.fields.iter().enumerate().filter(|(_, f)| f.groups.contains(g)).flat_map(|(i, _)| live(&m.links[i])).collect();
    let got: Vec<Id> = ids(n.get_links_by_group(g).into_iter());
    out.ok(sorted(got.clone()) == sorted(want.clone()), || format!("get_links_by_group({g}) = {got:?}, expected {want:?}"));
  }
  let src: Vec<_> = n.iter_sources().collect();
  let mut got: Vec<Id> = src.iter().map(|x| x.0 .0 as u64).collect();
  let mut want: Vec<Id> = m.links.iter().flat_map(live).collect();
  got.sort();
  want.sort();
  out.ok(got == want, || format!("iter_sources of the enum gives {got:?}, expected {want:?}"));
  let mut mirrors = BTreeSet::new();
  for (y, sr) in &src {
    let l = N::to_link_mirror_enum(*sr);
    mirrors.insert(l);
    out.ok(n.contains_link(l, *y) && n.check_link(l), || format!("contains_link or check_link of {l:?} is false for {y:?}"));
    let listed: Vec<Id> = ids(n.iter_links(l));
    out.ok(listed.contains(&(y.0 as u64)) && !listed.contains(&0), || format!("iter_links({l:?}) = {listed:?}"));
    // the groups that a link belongs to expand to links that include it
    let logs = N::to_log_mirror_enums(l);
    out.ok(!logs.is_empty(), || format!("to_log_mirror_enums({l:?}) is empty"));
    let mut own = 0;
    for g in &logs {
      let e = N::expand_link_groups(*g);
      own += (e.len() == 1) as usize;
      out.ok(e.contains(&l), || format!("{l:?} belongs to {g:?}, which expands to {e:?}"));
    }
    out.ok(own >= 1, || format!("to_log_mirror_enums({l:?}) = {logs:?} does not include the link itself"));
    // a link of this variant is no link of another one
    if other.var() != m.var {
      out.ok(!other.check_link(l) && !other.contains_link(l, *y), || format!("{l:?} is taken for a link of {}", s.vars[other.var()].name));
      let mut o = N::make(&MNode { tag: 78, ..other.read() });
      let b = o.read();
      let r = (o.add_link(l, *y), o.remove_link(l, *y));
      out.ok(r == (false, false) && o.read() == b, || format!("adding or removing {l:?} of {} reported {r:?}", s.vars[other.var()].name));
    }
  }
  // changes through the enum
  for (y, sr) in &src {
    let l = N::to_link_mirror_enum(*sr);
    let before = MNode { tag: 78, ..m.clone() };
    let mut c = N::make(&before);
    let held = ids(n.iter_links(l));
    let r = c.modify_link(*sr, *y, ni(9999));
    let now = c.read();
    let gone: usize = before.links.iter().map(|x| live(x).len()).sum::<usize>();
    let here: usize = now.links.iter().map(|x| live(x).len()).sum::<usize>();
    let put = now.links.iter().filter(|x| x.contains(9999)).count();
    let changed: Vec<usize> = (0..now.links.len()).filter(|i| now.links[*i] != before.links[*i]).collect();
    out.ok(r.added && r.removed && gone == here && put == 1 && changed.len() == 1, || {
      format!("modify_link({sr:?}, {y:?}, 9999) on the enum gave {now:?}, added {} removed {}", r.added, r.removed)
    });
    if let [f] = changed[..] {
      out.ok(same(decl.fields[f].kind, held.clone(), live(&before.links[f])), || format!("modify_link({sr:?}) changed field {f}, iter_links({l:?}) lists {held:?}"));
      if decl.fields[f].kind != Kind::Vec {
        let mut c = N::make(&before);
        let a = c.remove_link(l, *y);
        let mid = c.read();
        let b = c.add_link(l, *y);
        let mut want = before.clone();
        match &mut want.links[f] {
          Link::D(z) => *z = 0,
          Link::S(z) => {
            z.remove(&(y.0 as u64));
          },
          _ => {},
        }
        out.ok(a && b && mid == want && c.read() == before, || {
          format!("remove_link({l:?}, {y:?}) then add_link reported {a} {b} and gave {mid:?} then {:?}", c.read())
        });
      }
    }
  }
}

/// random changes through the enum, with a model
#[cfg(not(feature = "noreflect"))]
pub fn reflect_enum_ops<N: VNode>(out: &mut Reflect, seed: u64) {
  let mut r = Rng::new(seed);
  let s = out.schema.clone();
  let mut m = MNode { tag: 79, ..out.node.clone() };
  let decl = s.vars[m.var].clone();
  if decl.fields.is_empty() {
    return;
  }
  let mut c = N::make(&m);
  for step in 0..16 {
    let before = m.clone();
    let f = r.below(decl.fields.len());
    let l = N::mirror(m.var, f);
    let here = live(&m.links[f]);
    let y = if !here.is_empty() && r.p(0.4) { here[r.below(here.len())] } else { r.range(1, 12) as u64 };
    let what;
    let (got, want);
    match r.below(4) {
      0 if decl.fields[f].kind != Kind::Vec => {
        let w = match &mut m.links[f] {
          Link::D(z) if *z != 0 && *z != y => continue,
          Link::D(z) => std::mem::replace(z, y) == 0,
          Link::S(z) => z.insert(y),
          _ => unreachable!(),
        };
        what = format!("add_link({l:?}, {y})");
        got = vec![c.add_link(l, ni(y))];
        want = vec![w];
      },
      1 if decl.fields[f].kind != Kind::Vec => {
        let w = match &mut m.links[f] {
          Link::D(z) if *z == y => {
            *z = 0;
            true
          },
          Link::D(_) => false,
          Link::S(z) => z.remove(&y),
          _ => unreachable!(),
        };
        what = format!("remove_link({l:?}, {y})");
        got = vec![c.remove_link(l, ni(y))];
        want = vec![w];
      },
      2 => {
        what = format!("contains_link({l:?}, {y})");
        got = vec![c.contains_link(l, ni(y))];
        want = vec![here.contains(&y)];
      },
      _ => {
        let src: Vec<_> = c.iter_sources().collect();
        let Some((old, sr)) = r.pick(&src).copied() else { continue };
        let old_id = old.0 as u64;
        let new = if r.p(0.25) { 0 } else { r.range(1, 12) as u64 };
        let ml = N::to_link_mirror_enum(sr);
        let Some(f) = (0..decl.fields.len()).find(|f| N::mirror(m.var, *f) == ml) else {
          out.ok(false, || format!("source {sr:?} has no declared link"));
          return;
        };
        what = format!("modify_link({sr:?}, {old_id}, {new})");
        match &mut m.links[f] {
          Link::D(z) => {
            want = vec![*z != new, *z != new && new != 0];
            *z = new;
          },
          Link::S(z) => {
            z.remove(&old_id);
            let a = new != 0 && z.insert(new);
            want = if new == old_id { vec![] } else { vec![true, a] };
          },
          Link::V(z) => {
            let k = src.iter().filter(|(_, s2)| N::to_link_mirror_enum(*s2) == ml).position(|(_, s2)| *s2 == sr).unwrap();
            let slot = (0..z.len()).filter(|i| z[*i] != 0).nth(k).unwrap();
            want = vec![z[slot] != new, z[slot] != new && new != 0];
            z[slot] = new;
          },
        }
        let q = c.modify_link(sr, old, ni(new));
        got = if want.is_empty() { vec![] } else { vec![q.removed, q.added] };
      },
    }
    let now = c.read();
    out.ok(got == want, || format!("step {step}: {what} of the enum on {before:?} reported {got:?}, expected {want:?}"));
    out.ok(now == m, || format!("step {step}: {what} of the enum on {before:?} gave {now:?}, expected {m:?}"));
    if out.err.is_some() {
      return;
    }
  }
}

/// handles of links and groups of the enum against the declarations
#[cfg(not(any(feature = "noreflect", feature = "nodeclared")))]
pub fn reflect_declared<N: VNode>(n: &N, out: &mut Reflect) {
  let s = out.schema.clone();
  let m = out.node.clone();
  let decl = &s.vars[m.var];
  let set = |v: Vec<N::LinkMirrorEnum>| -> BTreeSet<N::LinkMirrorEnum> { v.into_iter().collect() };
  let members = |v: usize, g: &str| -> Vec<usize> {
    (0..s.nfields(v)).filter(|f| s.vars[v].fields[*f].name == g || s.vars[v].fields[*f].groups.contains(&g)).collect()
  };
  let all: Vec<N::LinkMirrorEnum> = (0..s.vars.len()).flat_map(|v| (0..s.nfields(v)).map(move |f| N::mirror(v, f))).collect();
  out.ok(set(all.clone()).len() == all.len(), || "two fields share a handle".into());
  let got = set(n.match_bd_link_group(all.clone()));
  let want: BTreeSet<_> = (0..decl.fields.len()).map(|f| N::mirror(m.var, f)).collect();
  out.ok(got == want, || format!("match_bd_link_group of all links = {got:?}, expected {want:?}"));
  for v in 0..s.vars.len() {
    for f in 0..s.nfields(v) {
      let l = N::mirror(v, f);
      out.ok(n.check_link(l) == (v == m.var), || format!("check_link({l:?}) is {}", n.check_link(l)));
    }
  }
  let mut pairs: BTreeSet<(Id, N::LinkMirrorEnum)> = BTreeSet::new();
  for (f, fd) in decl.fields.iter().enumerate() {
    let l = N::mirror(m.var, f);
    if fd.kind != Kind::Vec {
      let b = N::to_link_mirror_enum(N::to_source_enum(l));
      out.ok(b == l, || format!("to_link_mirror_enum(to_source_enum({l:?})) is {b:?}"));
    }
    let got: BTreeSet<_> = N::to_log_mirror_enums(l).into_iter().collect();
    let want: BTreeSet<_> = fd.groups.iter().chain([&fd.name]).filter_map(|g| N::log(m.var, g)).collect();
    out.ok(got == want, || format!("to_log_mirror_enums({l:?}) = {got:?}, expected {want:?}"));
    for g in fd.groups.iter().chain([&fd.name]) {
      let Some(lg) = N::log(m.var, g) else { continue };
      let got = set(N::expand_link_groups(lg));
      let want: BTreeSet<_> = members(m.var, g).into_iter().map(|f| N::mirror(m.var, f)).collect();
      out.ok(got == want, || format!("expand_link_groups({lg:?}) = {got:?}, expected {want:?}"));
    }
    let want: BTreeSet<_> = s.opp[m.var][f].iter().map(|(w, g)| N::mirror(*w, *g)).collect();
    let list = n.get_bidiretional_link_mirrors_of(l);
    out.ok(list.len() == want.len() && set(list.clone()) == want, || format!("get_bidiretional_link_mirrors_of({l:?}) = {list:?}, expected {want:?}"));
    pairs.extend(live(&m.links[f]).into_iter().flat_map(|y| want.iter().map(move |o| (y, *o))));
    for w in 0..s.vars.len() {
      let want = s.allowed[m.var][f].as_ref().is_none_or(|a| a.contains(&w));
      let d = N::disc(w);
      match N::check_link_type(d, l) {
        Ok(()) => out.ok(want, || format!("check_link_type accepts {} for {l:?}", s.vars[w].name)),
        Err(e) => {
          out.ok(!want, || format!("check_link_type rejects {} for {l:?}", s.vars[w].name));
          out.ok(e.found == d && !e.expect.contains(&d), || format!("check_link_type of {} for {l:?} reports {:?}, found {:?}", s.vars[w].name, e.expect, e.found));
        },
      }
    }
  }
  for g in &decl.phantom {
    if let (Some(lg), []) = (N::log(m.var, g), &members(m.var, g)[..]) {
      let e = N::expand_link_groups(lg);
      out.ok(e.is_empty(), || format!("expand_link_groups({lg:?}) of a phantom group = {e:?}"));
    }
  }
  let got: BTreeSet<(Id, N::LinkMirrorEnum)> =
    n.get_bidiretional_links().into_iter().flat_map(|(ys, ls)| ys.into_iter().flat_map(move |y| ls.clone().into_iter().map(move |l| (y.0 as u64, l)))).collect();
  out.ok(got == pairs, || format!("get_bidiretional_links lists {got:?}, expected {pairs:?}"));
}

pub type ReflectFn = fn(&MNode, &MNode, u64) -> (u64, Option<String>);

/// all reflection checks of one node
pub fn reflect_node<N: VNode>(n: &MNode, other: &MNode, seed: u64) -> (u64, Option<String>) {
  let mut out = Reflect::new(N::schema(), n.clone());
  let r = crate::real::guard(|| {
    let x = N::make(n);
    let o = N::make(other);
    out.ok(x.read() == *n, || "node does not read back".into());
    #[cfg(not(feature = "noreflect"))]
    {
      x.reflect(&mut out);
      x.reflect_ops(&mut out, seed);
      reflect_enum(&x, &o, &mut out);
      #[cfg(not(feature = "nodeclared"))]
      reflect_declared(&x, &mut out);
      reflect_enum_ops::<N>(&mut out, seed ^ 5);
    }
  });
  if let Err(m) = r {
    out.ok(false, || format!("panicked: {m}"));
  }
  (out.checks, out.err)
}
