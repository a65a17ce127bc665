//! Minimizes a failing history while the same monitor keeps firing.
use crate::hist::*;
use crate::schema::*;

pub fn shrink(h: &History, mut fails: impl FnMut(&History) -> bool, budget: usize) -> History {
  let mut best = h.clone();
  let mut left = budget;
  let mut test = |c: &History, left: &mut usize| -> bool {
    if *left == 0 {
      return false;
    }
    *left -= 1;
    fails(c)
  };
  loop {
    let before = best.clone();
    // steps
    let mut n = (best.steps.len() / 2).max(1);
    while n >= 1 {
      let mut i = 0;
      while i < best.steps.len() {
        let mut c = best.clone();
        let e = (i + n).min(c.steps.len());
        c.steps.drain(i..e);
        if test(&c, &mut left) {
          best = c;
        } else {
          i += n;
        }
      }
      n /= 2;
    }
    // a whole transaction
    let ts: std::collections::BTreeSet<usize> =
      best.steps.iter().filter_map(|s| if let Step::Begin { t, .. } = s { Some(*t) } else { None }).collect();
    for t in ts {
      let mut c = best.clone();
      c.steps.retain(|s| match s {
        Step::Begin { t: u, .. } | Step::Op { t: u, .. } | Step::Commit { t: u, .. } | Step::GiveUp { t: u, .. } => *u != t,
        _ => true,
      });
      if c.steps.len() < best.steps.len() && test(&c, &mut left) {
        best = c;
      }
    }
    // parts of steps
    for i in 0..best.steps.len() {
      for v in variants(&best.steps[i]) {
        let mut c = best.clone();
        c.steps[i] = v;
        if test(&c, &mut left) {
          best = c;
        }
      }
    }
    if best == before || left == 0 {
      return best;
    }
  }
}

fn variants(s: &Step) -> Vec<Step> {
  let mut r = vec![];
  match s {
    Step::Op { t, op } => {
      let mut put = |k: OpK| r.push(Step::Op { t: *t, op: Op { uid: op.uid, k } });
      match &op.k {
        OpK::Insert { h, node } => nodes(node).into_iter().for_each(|n| put(OpK::Insert { h: *h, node: n })),
        OpK::Fill { h, node, untyped } => {
          nodes(node).into_iter().for_each(|n| put(OpK::Fill { h: *h, node: n, untyped: *untyped }))
        },
        OpK::Extend { items } => {
          for i in 0..items.len() {
            let mut v = items.clone();
            v.remove(i);
            put(OpK::Extend { items: v });
            for n in nodes(&items[i].1) {
              let mut v = items.clone();
              v[i].1 = n;
              put(OpK::Extend { items: v });
            }
          }
        },
        OpK::Mutate { h, edits, typed } => {
          for e in edit_lists(edits) {
            put(OpK::Mutate { h: *h, edits: e, typed: *typed });
          }
          if typed.is_some() {
            put(OpK::Mutate { h: *h, edits: edits.clone(), typed: None });
          }
        },
        OpK::Update { h, edits, typed } => {
          for e in edit_lists(edits) {
            put(OpK::Update { h: *h, edits: e, typed: *typed });
          }
          if typed.is_some() {
            put(OpK::Update { h: *h, edits: edits.clone(), typed: None });
          }
          put(OpK::Mutate { h: *h, edits: edits.clone(), typed: *typed });
        },
        _ => {},
      }
    },
    Step::Commit { t, g, checks: Some(c) } => {
      r.push(Step::Commit { t: *t, g: *g, checks: None });
      for i in 0..c.len() {
        let mut v = c.clone();
        v.remove(i);
        r.push(Step::Commit { t: *t, g: *g, checks: Some(v) });
      }
    },
    Step::SerDe { g, uid, keep, how, craft: Some(c), .. } => {
      let with = |craft| Step::SerDe { g: *g, uid: *uid, mode: 0, keep: *keep, how: *how, craft };
      r.push(with(None));
      if c.order != 0 {
        r.push(with(Some(Craft { order: 0, ..c.clone() })));
      }
      if c.shift != 0 {
        r.push(with(Some(Craft { shift: 0, ..c.clone() })));
      }
      for i in 0..c.less.len() {
        let mut d = c.clone();
        d.less.remove(i);
        r.push(with(Some(d)));
      }
    },
    Step::SerDe { g, uid, mode, keep, how, craft: None } if *mode != 0 => {
      r.push(Step::SerDe { g: *g, uid: *uid, mode: 0, keep: *keep, how: *how, craft: None })
    },
    _ => {},
  }
  r
}
fn nodes(n: &MNode) -> Vec<MNode> {
  let mut r = vec![];
  for (f, l) in n.links.iter().enumerate() {
    let mut set = |l: Link| {
      let mut m = n.clone();
      m.links[f] = l;
      r.push(m);
    };
    match l {
      Link::D(0) => {},
      Link::D(_) => set(Link::D(0)),
      Link::V(v) => {
        if !v.is_empty() {
          set(Link::V(vec![]));
        }
        for i in 0..v.len() {
          let mut w = v.clone();
          w.remove(i);
          set(Link::V(w));
        }
      },
      Link::S(s) => {
        for x in s {
          let mut w = s.clone();
          w.remove(x);
          set(Link::S(w));
        }
      },
    }
  }
  r
}
fn edit_lists(e: &[Edit]) -> Vec<Vec<Edit>> {
  let mut r: Vec<Vec<Edit>> = (0..e.len())
    .map(|i| {
      let mut v = e.to_vec();
      v.remove(i);
      v
    })
    .collect();
  for (i, x) in e.iter().enumerate() {
    if let Edit::Replace(n) = x {
      for m in nodes(n) {
        let mut v = e.to_vec();
        v[i] = Edit::Replace(m);
        r.push(v);
      }
    }
  }
  r
}
