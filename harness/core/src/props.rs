//! What each property looks at: the workload it is given, the deviations that violate it, and the
//! counterfactual runs that tell which guarantee a deviation belongs to.
use crate::exec::*;
use crate::gen::*;
use crate::hist::*;
use crate::model::*;
use crate::schema::*;
use crate::Entry;
use std::collections::{BTreeMap, BTreeSet};

fn is_remove(k: &OpK) -> bool {
  matches!(k, OpK::Remove { .. })
}
fn is_redirect(k: &OpK) -> bool {
  matches!(k, OpK::Redirect { .. } | OpK::RedirectAll { .. })
}
fn is_merge(k: &OpK) -> bool {
  matches!(k, OpK::Merge { .. })
}

pub fn profile(prop: &str, s: &Schema, r: &mut Rng) -> Profile {
  let mut p = Profile::default();
  // swarm: most histories lack some operations and are rich in others
  {
    let mut knobs: Vec<&mut f64> = vec![
      &mut p.alloc, &mut p.remove, &mut p.mutate, &mut p.update, &mut p.redirect, &mut p.redirect_all, &mut p.extend,
      &mut p.merge, &mut p.pair, &mut p.swap, &mut p.replace, &mut p.cluster, &mut p.variant, &mut p.cancel,
      &mut p.again, &mut p.burst,
    ];
    for k in knobs.iter_mut() {
      match r.below(10) {
        0 | 1 => **k = 0.0,
        2 | 3 => **k *= 3.0,
        _ => {},
      }
    }
    if p.mutate + p.update == 0.0 {
      p.mutate = 1.0;
    }
  }
  match r.below(12 * 16) {
    0..=3 => {
      // few large graphs
      p.steps = (80, 200);
      p.size = *r.pick(&[60, 120, 250]).unwrap();
      p.wide = *r.pick(&[4, 20, 50]).unwrap();
      p.chain = 12;
      p.commit = 0.06;
      p.cluster *= 4.0;
      p.insert *= 4.0;
      p.extend *= 3.0;
    },
    n => swarm_size(&mut p, n / 16),
  }
  if r.below(300) == 0 {
    // very few, very large ones
    p.steps = (300, 2500);
    p.many = *r.pick(&[150, 300, 300, 700]).unwrap();
    p.mass = 6.0;
    p.size = p.many;
    p.commit = 1.5;
    p.open = 1;
  } else if r.p(0.2) {
    p.open = 4;
  }
  if r.p(0.06) {
    p.wide = p.wide.max(12);
    p.chain = p.chain.max(8);
  }
  by_property(prop, &mut p);
  if s.has_bidi && r.p(0.5) {
    p.dangling = 0.0;
  }
  p
}
fn swarm_size(p: &mut Profile, n: usize) {
  match n {
    0..=4 => {
      p.steps = (6, 30);
      p.size = 5;
    },
    5..=9 => {},
    10 => {
      p.steps = (60, 160);
      p.size = 14;
    },
    _ => {
      p.steps = (100, 300);
      p.size = 30;
      p.commit = 0.1;
    },
  }
}
fn by_property(prop: &str, p: &mut Profile) {
  match prop {
    "C02" => {
      p.remove = p.remove.max(1.2);
      p.cancel = p.cancel.max(0.3);
    },
    "C03" => {
      p.redirect = p.redirect.max(0.9);
      p.redirect_all = p.redirect_all.max(0.9);
      p.looped = 0.04;
    },
    "C04" | "C05" => {
      p.pair = p.pair.max(1.2);
      p.swap = p.swap.max(0.4);
      if prop == "C05" {
        p.probe = 0.12;
        p.illegal = 0.12;
      }
      p.serde = 0.02;
      p.switch = 0.02;
    },
    "C06" => {
      p.serde = 0.05;
      p.switch = 0.05;
      p.giveup = 0.05;
      p.dangling = 0.1;
      p.alloc = p.alloc.max(0.8);
      p.extend = p.extend.max(0.3);
    },
    "C07" => {
      p.misuse = 0.15;
      p.probe = 0.1;
      p.newgraph = 0.05;
      p.giveup = 0.03;
    },
    "C09" => {
      p.serde = 0.08;
      p.dangling = 0.08;
    },
    "C10" => {
      p.switch = 0.08;
      p.dangling = 0.0;
      p.empties = 0.0;
      p.newgraph = 0.05;
    },
    "C11" => {
      p.merge = 0.9;
      p.dangling = 0.08;
      p.newgraph = 0.05;
      p.graphs = 4;
    },
    "C12" => {
      p.illegal = 0.1;
      p.checks = 0.25;
      p.probe = 0.25;
      p.variant = p.variant.max(0.3);
    },
    "C13" => {
      p.checks = 0.9;
      p.probe = 0.1;
    },
    "C15" => {
      p.giveup = 0.06;
      p.cancel = p.cancel.max(0.3);
      p.mutate = p.mutate.max(1.5);
      p.update = p.update.max(1.5);
      p.misuse = 0.0;
      p.probe = 0.0;
      p.looped = 0.0;
    },
    "C17" => {
      p.probe = 0.0;
      p.misuse = 0.0;
      p.looped = 0.0;
      p.switch = 0.02;
      p.serde = 0.02;
    },
    "C18" => {
      p.misuse = 0.05;
      p.probe = 0.06;
      p.looped = 0.02;
      p.checks = 0.0;
    },
    "C19" => {
      p.typed = 0.9;
      p.misuse = 0.05;
      p.probe = 0.05;
    },
    "C20" => {
      p.graphs = 4;
      p.open = 5;
      p.aftermath = 0.7;
      p.probe = p.probe.max(0.2);
      p.looped = p.looped.max(0.15);
      p.newgraph = 0.06;
      p.giveup = 0.04;
      p.dropgraph = 0.015;
      p.merge = p.merge.max(0.2);
      p.steps.1 = p.steps.1.max(60);
    },
    "C21" => {
      p.dangling = 0.12;
      p.misuse = 0.0;
    },
    _ => {},
  }
}

/// how much a schema matters for a property
pub fn schema_weight(prop: &str, s: &Schema) -> f64 {
  let b = s.has_bidi as u8 as f64;
  let l = s.has_ltypes as u8 as f64;
  match prop {
    "C04" | "C05" => b * (1.0 + l * 0.3),
    "C12" => l * (1.0 + b * 0.3),
    "C17" => (s.hashfree as u8 as f64) * (1.0 + b),
    "C01" | "C02" | "C03" | "C16" => 1.0 + b * 0.5,
    _ => 1.0,
  }
}

/// the history exercised what the property is about
pub fn nontrivial(prop: &str, d: &BTreeMap<&'static str, u64>) -> bool {
  let n = |k: &str| *d.get(k).unwrap_or(&0);
  let any = |p: &str| d.iter().any(|(k, v)| k.starts_with(p) && *v > 0);
  let c = n("commits") > 0;
  match prop {
    "C01" => n("commits") > 1,
    "C02" => c && n("op remove") > 0,
    "C03" => c && (n("op redirect_links") + n("op redirect_all_links") > 0),
    "C04" => n("links completed by declarations") > 0,
    "C05" => n("links completed by declarations") > 0 || any("panic counterpart") || any("panic several"),
    "C06" => n("op insert") + n("op alloc") + n("context switches") + n("op extend") > 1,
    "C07" => any("panic"),
    "C08" => n("view comparisons") > 1 && c,
    "C09" => n("serialization round trips") > 0,
    "C10" => n("context switches") > 0,
    "C11" => n("op merge") > 0 && c,
    "C12" => any("panic link type") || c,
    "C13" => n("check calls") > 0,
    "C15" => n("closure runs") > 0 && n("payload censuses") > 1,
    "C16" => n("commits") > 2,
    "C19" => n("op mut_node!") + n("op update_node!") > 0,
    "C21" => c && n("self checks of closed graphs") > 0 && n("self checks of graphs with external links") > 0,
    "C20" => n("max graph count") > 1 || n("max open transactions") > 1,
    _ => c,
  }
}

pub struct Judge<'a> {
  pub e: &'a Entry,
}
impl Judge<'_> {
  fn outcome(&self, h: &History, o: &Opts) -> Option<bool> {
    match run_apart(&[(h, self.e.mk)], o)? {
      End::Held => Some(true),
      End::Invalid(_) => None,
      End::Broken(_) => Some(false),
    }
  }
  fn held(&self, steps: Vec<Step>, o: &Opts) -> bool {
    let h = History { schema: self.e.schema.name.to_string(), steps };
    self.outcome(&h, o) == Some(true)
  }

  /// Does deviation `v` of history `h` violate the property?
  pub fn blames(&self, prop: &str, h: &History, v: &Violation) -> bool {
    self.blamed(prop, h, v).is_some()
  }
  /// the deviation of the step that violates the property
  pub fn blamed<'v>(&self, prop: &str, h: &History, v: &'v Violation) -> Option<&'v Violation> {
    v.each().find(|x| self.blames_one(prop, h, x))
  }
  fn blames_one(&self, prop: &str, h: &History, v: &Violation) -> bool {
    use VK::*;
    let s = &self.e.schema;
    let o = Opts { views: true, ..Default::default() };
    let upto: Vec<Step> = h.steps.iter().take(v.step + 1).cloned().collect();
    let at = h.steps.get(v.step);
    let commit = match at {
      Some(Step::Commit { t, g, .. }) => Some((*t, *g)),
      _ => None,
    };
    let effect = matches!(v.kind, State | Symmetry | UnexpPanic | Obs);
    let ops_of = |t: usize| -> Vec<&OpK> {
      h.steps.iter().filter_map(|s| if let Step::Op { t: u, op } = s { if *u == t { Some(&op.k) } else { None } } else { None }).collect()
    };
    let without = |f: &dyn Fn(usize, &OpK) -> bool| -> Vec<Step> {
      upto.iter().filter(|s| if let Step::Op { t, op } = s { !f(*t, &op.k) } else { true }).cloned().collect()
    };
    match prop {
      "C01" => effect && matches!(at, Some(Step::Commit { .. } | Step::Op { .. })),
      "C02" => {
        let Some((t, _)) = commit else { return false };
        if !effect {
          return false;
        }
        let gone: BTreeSet<Id> = ops_of(t).iter().filter_map(|k| if let OpK::Remove { h } = k { Some(*h) } else { None }).collect();
        if let Some(got) = &v.got {
          if got.values().any(|n| n.links.iter().any(|l| gone.iter().any(|x| l.contains(*x)))) {
            return true;
          }
        }
        (!gone.is_empty() && self.held(without(&|u, k| u == t && is_remove(k)), &o))
          || (upto.iter().any(|s| matches!(s, Step::Op { op, .. } if is_remove(&op.k))) && self.held(without(&|_, k| is_remove(k)), &o))
      },
      "C03" => {
        if v.kind == MissPanic {
          return v.reason == Some(Reason::RedirectLoop);
        }
        let Some((t, _)) = commit else { return false };
        effect
          && ((ops_of(t).iter().any(|k| is_redirect(k)) && self.held(without(&|u, k| u == t && is_redirect(k)), &o))
            || (upto.iter().any(|s| matches!(s, Step::Op { op, .. } if is_redirect(&op.k)))
              && self.held(without(&|_, k| is_redirect(k)), &o)))
      },
      "C04" => v.kind == Symmetry || (matches!(v.kind, State | Isolation) && v.bidi_field),
      "C05" => match v.kind {
        MissPanic => v.reason.is_some_and(|r| r.is_bidi()),
        UnexpPanic => s.has_bidi && commit.is_some(),
        _ => false,
      },
      "C06" => v.kind == Fresh,
      "C07" => v.kind == Rejected || (v.kind == MissPanic && v.reason.is_some_and(|r| r.is_misuse())),
      "C08" => v.kind == View,
      "C21" => v.kind == Integrity,
      "C09" | "C10" | "C11" => {
        let mine = |s: &Step| match (prop, s) {
          ("C09", Step::SerDe { .. }) | ("C10", Step::Switch { .. }) => true,
          ("C11", Step::Op { op, .. }) => is_merge(&op.k),
          _ => false,
        };
        if v.kind == MissPanic && v.reason == Some(Reason::MergeForeign) {
          return prop == "C11";
        }
        if at.is_some_and(mine) {
          return true;
        }
        if !upto.iter().any(mine) {
          return false;
        }
        let alt: Vec<Step> = upto
          .iter()
          .map(|s| match s {
            Step::SerDe { g, uid, mode, keep, .. } if prop == "C09" => {
              Step::SerDe { g: *g, uid: *uid, mode: *mode, keep: *keep, how: How::Rebuild, craft: None }
            },
            Step::Switch { g, to, uid, .. } if prop == "C10" => {
              Step::Switch { g: *g, to: to.clone(), uid: *uid, how: How::Rebuild }
            },
            Step::Op { t, op: Op { uid, k: OpK::Merge { g, .. } } } if prop == "C11" => {
              Step::Op { t: *t, op: Op { uid: *uid, k: OpK::Merge { g: *g, how: How::Rebuild } } }
            },
            s => s.clone(),
          })
          .collect();
        if prop == "C11" {
          // the merged nodes are there before anything else of the transaction
          let mut early: Vec<Step> = alt.iter().filter(|s| !matches!(s, Step::Op { op, .. } if is_merge(&op.k))).cloned().collect();
          for m in alt.iter().rev() {
            if let Step::Op { t, op } = m {
              if is_merge(&op.k) {
                let Some(k) = early.iter().position(|s| matches!(s, Step::Op { t: u, .. } | Step::Commit { t: u, .. } if u == t)) else { continue };
                early.insert(k, m.clone());
              }
            }
          }
          if self.held(early, &o) {
            return true;
          }
        }
        self.held(alt, &o)
      },
      "C12" => match v.kind {
        MissPanic => v.reason == Some(Reason::LinkType),
        UnexpPanic => s.has_ltypes && matches!(at, Some(Step::Commit { .. } | Step::Switch { .. } | Step::SerDe { .. })),
        _ => false,
      },
      "C13" => {
        if v.kind == CheckLog || v.reason == Some(Reason::CheckFailed) {
          return true;
        }
        matches!(at, Some(Step::Commit { checks: Some(_), .. })) && self.held(upto.clone(), &Opts { plain_commits: true, ..o.clone() })
      },
      "C15" => matches!(v.kind, Obs | Drop | TransEmpty | Inert),
      "C16" => {
        if !(effect || matches!(v.kind, MissPanic)) {
          return false;
        }
        // a link that should have been found, whatever the history
        if let (Some((t, _)), Some(got), Some(pre)) = (commit, &v.got, &v.pre) {
          // the node had links to it, and they are still there
          let left = |x: Id| {
            got.iter().any(|(i, n)| {
              let Some(was) = pre.get(i) else { return false };
              n.links.iter().zip(&was.links).any(|(l, w)| l.contains(x) && w.contains(x))
            })
          };
          let lost = |k: &OpK| match k {
            OpK::Remove { h } => left(*h),
            OpK::Redirect { a, .. } | OpK::RedirectAll { a, .. } => left(*a),
            _ => false,
          };
          let ops = ops_of(t);
          if ops.iter().any(|k| is_remove(k) && lost(k)) || (ops.iter().any(|k| is_redirect(k) && lost(k)) && self.blames_one("C03", h, v)) {
            return true;
          }
        }
        match self.afresh(h, v.step) {
          Some(steps) => self.held(steps, &o),
          None => false,
        }
      },
      "C19" => {
        v.kind == TypedView
          || v.reason == Some(Reason::ClosureType)
          || self.held(upto.clone(), &Opts { plain_macros: true, ..o.clone() })
      },
      "C20" => {
        if matches!(v.kind, Isolation | Inert) {
          return true;
        }
        let Some(alt) = self.alone(&upto, at) else { return false };
        self.held(alt, &o)
      },
      _ => false,
    }
  }

  /// The failing commit or switch on graphs that were created from scratch with the same contents.
  pub fn afresh(&self, h: &History, at: usize) -> Option<Vec<Step>> {
    let (mine, g, last): (Option<usize>, usize, Step) = match h.steps.get(at)? {
      Step::Commit { t, g, .. } => (Some(*t), *g, h.steps[at].clone()),
      Step::Switch { g, uid, .. } => {
        (None, *g, Step::Switch { g: *g, to: CtxSel::New { default: false }, uid: *uid, how: How::Native })
      },
      _ => return None,
    };
    let mut w = World::new(self.e.schema.clone());
    let mut merged: Vec<(usize, Nodes)> = vec![];
    for s in &h.steps[..at] {
      if let Step::Op { t, op: Op { k: OpK::Merge { g, .. }, .. } } = s {
        if Some(*t) == mine {
          merged.push((*g, w.graphs.get(g)?.nodes.clone()));
        }
      }
      advance(&mut w, s).ok()?;
    }
    let gr = w.graphs.get(&g)?;
    if mine.is_some_and(|t| w.trans.get(&t).is_none_or(|t| t.ctx != gr.ctx)) {
      return None;
    }
    let ops: Vec<Step> = match mine {
      Some(t) => h.steps[..at].iter().filter(|s| matches!(s, Step::Op { t: u, .. } if *u == t)).cloned().collect(),
      None => vec![],
    };
    let mut parts: Vec<(usize, &Nodes)> = vec![(g, &gr.nodes)];
    parts.extend(merged.iter().map(|(g, n)| (*g, n)));
    // handles that are referred to without being in any graph
    let mut defined: BTreeSet<Id> = parts.iter().flat_map(|x| x.1.keys().copied()).collect();
    for s in &ops {
      if let Step::Op { op, .. } = s {
        defined.extend(op.defines());
      }
    }
    let mut used = BTreeSet::new();
    for (_, n) in &parts {
      for n in n.values() {
        n.links.iter().for_each(|l| used.extend(l.ids()));
      }
    }
    for s in &ops {
      if let Step::Op { op, .. } = s {
        op.map_refs(&mut |x| {
          used.insert(x);
          x
        });
        used.extend(op.subject());
      }
    }
    used.remove(&0);
    let mut steps = vec![Step::NewGraph { g, ctx: CtxSel::New { default: false } }];
    let mut uid = 500_000;
    let mut op = |t: usize, k: OpK| {
      uid += 1;
      Step::Op { t, op: Op { uid, k } }
    };
    let lost: Vec<Id> = used.difference(&defined).copied().collect();
    if !lost.is_empty() {
      steps.push(Step::Begin { t: 900_000, g });
      lost.iter().for_each(|h| steps.push(op(900_000, OpK::Alloc { h: *h, var: None, mac: false })));
      steps.push(Step::GiveUp { t: 900_000, how: 0 });
    }
    for (i, (m, nodes)) in parts.iter().enumerate() {
      let t = 900_001 + i;
      if *m != g {
        steps.push(Step::NewGraph { g: *m, ctx: CtxSel::Of(g) });
      }
      steps.push(Step::Begin { t, g: *m });
      nodes.keys().for_each(|h| steps.push(op(t, OpK::Alloc { h: *h, var: None, mac: false })));
      nodes.iter().for_each(|(h, n)| steps.push(op(t, OpK::Fill { h: *h, node: n.clone(), untyped: true })));
      steps.push(Step::Commit { t, g: *m, checks: None });
    }
    if let Some(t) = mine {
      steps.push(Step::Begin { t, g });
      steps.extend(ops);
    }
    steps.push(last);
    Some(steps)
  }

  /// The history without the graphs and transactions that have nothing to do with the failing step.
  pub fn alone(&self, upto: &[Step], at: Option<&Step>) -> Option<Vec<Step>> {
    let (t0, g0) = match at? {
      Step::Commit { t, g, .. } => (Some(*t), Some(*g)),
      Step::Op { t, .. } => (Some(*t), None),
      Step::Switch { g, .. } | Step::SerDe { g, .. } => (None, Some(*g)),
      _ => return None,
    };
    let mut ts: BTreeSet<usize> = t0.into_iter().collect();
    let mut gs: BTreeSet<usize> = g0.into_iter().collect();
    // transactions committed to a graph that matters, and graphs merged by a transaction that matters
    loop {
      let n = (ts.len(), gs.len());
      for s in upto {
        match s {
          Step::Commit { t, g, .. } if gs.contains(g) => {
            ts.insert(*t);
          },
          Step::Begin { t, g } if ts.contains(t) => {
            gs.insert(*g);
          },
          Step::NewGraph { g, ctx: CtxSel::Of(o) } | Step::Switch { g, to: CtxSel::Of(o), .. } if gs.contains(g) => {
            gs.insert(*o);
          },
          Step::SerDe { g, keep: Some(k), .. } if gs.contains(k) => {
            gs.insert(*g);
          },
          Step::Op { t, op: Op { k: OpK::Merge { g, .. }, .. } } if ts.contains(t) => {
            gs.insert(*g);
          },
          _ => {},
        }
      }
      if (ts.len(), gs.len()) == n {
        break;
      }
    }
    let alt: Vec<Step> = upto
      .iter()
      .filter(|s| match s {
        Step::NewGraph { g, .. } | Step::Switch { g, .. } | Step::DropGraph { g, .. } => gs.contains(g),
        Step::SerDe { g, keep, .. } => gs.contains(&keep.unwrap_or(*g)),
        Step::Begin { t, .. } | Step::Op { t, .. } | Step::Commit { t, .. } | Step::GiveUp { t, .. } => ts.contains(t),
      })
      .cloned()
      .collect();
    if alt.len() == upto.len() {
      None
    } else {
      Some(alt)
    }
  }
}
