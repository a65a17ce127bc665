//! Runs TTGraph under a reference model. See DESIGN.md.
use vcore::*;

mod generated {
  use vcore::reflect::*;
  use vcore::schema::*;
  use serde::{Deserialize, Serialize};
  include!(concat!(env!("VMON_GEN"), "/schemas.rs"));
}

use exec::*;
use hist::*;
use schema::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

macro_rules! entry {
  ($m:ident) => {{
    type N = generated::$m::Node;
    Entry {
      schema: Arc::new(<N as VNode>::schema()),
      mk: real::RealWorld::<N>::boxed,
      reflect: reflect::reflect_node::<N>,
      threads: threads::<N>,
    }
  }};
}
fn table() -> Vec<Entry> {
  for_schemas!(entry)
}

// ------------------------------------------------------------------ C06: one context, many threads

/// Threads share a context; every index that any of them obtains is recorded at the client boundary.
fn threads<N: VNode>(seed: u64, nt: usize, per: usize) -> Result<u64, String> {
  use ttgraph::*;
  let ctx = Context::new();
  let nvars = N::schema().vars.len();
  let empty = |v: usize| {
    let s = N::schema();
    MNode { var: v, tag: 0, val: 0, links: s.vars[v].fields.iter().map(|f| f.kind.empty()).collect() }
  };
  let protos: Vec<MNode> = (0..nvars).map(empty).collect();
  let barrier = std::sync::Barrier::new(nt);
  let outs: Vec<Result<Vec<usize>, String>> = std::thread::scope(|sc| {
    let hs: Vec<_> = (0..nt)
      .map(|k| {
        let (ctx, barrier, protos) = (&ctx, &barrier, &protos);
        sc.spawn(move || {
          let mut r = Rng::new(mix(seed ^ (k as u64 + 1)));
          let mut got = vec![];
          let res = real::guard(|| {
            let mine = ctx.clone();
            barrier.wait();
            let mut g = Graph::<N>::new(if k % 2 == 0 { ctx } else { &mine });
            let mut expect = 0;
            while got.len() < per {
              let mut t: Transaction<'static, N> = Transaction::new(if k % 3 == 0 { &mine } else { ctx });
              let n = r.range(1, 40);
              let mut here = 0;
              for _ in 0..n {
                let v = r.below(protos.len());
                match r.below(4) {
                  0 => {
                    let i = t.alloc(N::disc(v));
                    t.fill_back(i, N::make(&protos[v]));
                    got.push(i.0);
                  },
                  1 => {
                    let i = t.alloc_untyped();
                    got.push(i.0);
                    t.fill_back_untyped(i, N::make(&protos[v]));
                  },
                  _ => got.push(t.insert(N::make(&protos[v])).0),
                }
                here += 1;
              }
              match r.below(6) {
                0 => t.give_up(),
                1 => {
                  // through a graph of its own that is merged
                  let mut h = Graph::<N>::new(ctx);
                  h.commit(t);
                  let mut t: Transaction<'static, N> = Transaction::new(ctx);
                  t.merge(h);
                  g.commit(t);
                  expect += here;
                },
                2 => {
                  // through another context and back
                  let other = Context::new();
                  let mut h = Graph::<N>::new(ctx);
                  h.commit(t);
                  let h = h.switch_context(&other).switch_context(ctx);
                  got.extend(h.iter().map(|x| x.0 .0));
                },
                _ => {
                  g.commit(t);
                  expect += here;
                },
              }
              if g.len() > 200 {
                if g.len() != expect {
                  return Err(format!("a graph holds {} nodes after {expect} were inserted", g.len()));
                }
                g = Graph::<N>::new(ctx);
                expect = 0;
              }
            }
            if g.len() != expect {
              return Err(format!("a graph holds {} nodes after {expect} were inserted", g.len()));
            }
            Ok(())
          });
          match res {
            Ok(Ok(())) => Ok(got),
            Ok(Err(m)) => Err(m),
            Err(m) => Err(format!("panic: {m}")),
          }
        })
      })
      .collect();
    hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread died".into()))).collect()
  });
  let mut seen: HashSet<usize> = HashSet::new();
  let mut total = 0;
  for (k, o) in outs.into_iter().enumerate() {
    let v = o?;
    let mut last = 0;
    for (j, i) in v.into_iter().enumerate() {
      total += 1;
      if i == 0 {
        return Err(format!("thread {k} was given the empty index"));
      }
      if !seen.insert(i) {
        return Err(format!("index {i}, obtained by thread {k} as its {j}th, was handed out twice (previous index of the thread: {last})"));
      }
      last = i;
    }
  }
  Ok(total)
}

// ------------------------------------------------------------------ running

struct Args {
  m: BTreeMap<String, String>,
}
impl Args {
  fn s(&self, k: &str, d: &str) -> String {
    self.m.get(k).cloned().unwrap_or_else(|| d.to_string())
  }
  fn u(&self, k: &str, d: u64) -> u64 {
    self.m.get(k).map(|x| x.parse().unwrap()).unwrap_or(d)
  }
}

fn hash_of(h: &History) -> u64 {
  let mut s = std::collections::hash_map::DefaultHasher::new();
  h.schema.hash(&mut s);
  format!("{:?}", h.steps).hash(&mut s);
  s.finish()
}
fn task_seed(base: u64, prop: &str, i: u64) -> u64 {
  let p: u64 = prop.bytes().fold(7, |a, b| a * 131 + b as u64);
  mix(mix(base.wrapping_mul(0x1234_5678_9abc_def1) ^ p).wrapping_add(i))
}
fn make_history(table: &[Entry], prop: &str, base: u64, i: u64) -> Option<(usize, History)> {
  let mut r = Rng::new(task_seed(base, prop, i));
  let w: Vec<f64> = table.iter().map(|e| props::schema_weight(prop, &e.schema)).collect();
  if w.iter().sum::<f64>() == 0.0 {
    return None;
  }
  let k = r.weighted(&w);
  let p = props::profile(prop, &table[k].schema, &mut r);
  Some((k, gen::generate(&table[k].schema, &p, r.next())))
}

#[derive(serde::Serialize)]
struct Found {
  property: String,
  kind: String,
  message: String,
  step: usize,
  index: u64,
  /// what has to happen first in the same thread
  before: Vec<History>,
  history: Option<History>,
  extra: String,
}

#[derive(Default)]
struct Shared {
  stats: Mutex<Stats>,
  distinct: Mutex<HashSet<u64>>,
  samples: Mutex<Vec<serde_json::Value>>,
  found: Mutex<Vec<Found>>,
  others: Mutex<BTreeMap<String, u64>>,
  /// some histories that went wrong without this property being to blame
  orphans: Mutex<Vec<u64>>,
  evals: AtomicU64,
  nontrivial: AtomicU64,
  harness: AtomicU64,
  stop: AtomicBool,
}

/// what a worker is busy with, for the watchdog
#[derive(Default)]
struct Busy {
  tid: AtomicU64,
  prog: Arc<Progress>,
  since: AtomicU64,
  on: AtomicBool,
}
fn my_tid() -> u64 {
  std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name()?.to_str()?.parse().ok()).unwrap_or(0)
}
/// cpu time of a thread of this process, in clock ticks of 10 ms
fn ticks(tid: u64) -> u64 {
  ticks_and_state(tid).0
}
fn ticks_and_state(tid: u64) -> (u64, bool) {
  let Ok(s) = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")) else { return (0, false) };
  let Some(rest) = s.rsplit(')').next() else { return (0, false) };
  let f: Vec<&str> = rest.split_whitespace().collect();
  let t = f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
  (t, f.first() == Some(&"S"))
}

fn explore(table: &Arc<Vec<Entry>>, a: &Args) -> i32 {
  let prop = a.s("prop", "C01");
  let base = a.u("seed", 1);
  let secs = a.u("secs", 10);
  let max = a.u("max", u64::MAX);
  let nt = a.u("threads", 8) as usize;
  let first = a.u("first", 0);
  let out = a.s("out", "");
  let sh = Arc::new(Shared::default());
  let next = Arc::new(AtomicU64::new(first));
  let start = Instant::now();
  let scratch = a.s("scratch", "");
  let busy: Arc<Vec<Busy>> = Arc::new(
    (0..nt)
      .map(|k| {
        let file = if scratch.is_empty() { None } else { Some(std::fs::File::create(format!("{scratch}/busy{k}")).unwrap()) };
        Busy { prog: Arc::new(Progress { file, ..Default::default() }), ..Default::default() }
      })
      .collect(),
  );
  let mut handles = vec![];
  for k in 0..nt {
    let (table, sh, next, busy, prop) = (table.clone(), sh.clone(), next.clone(), busy.clone(), prop.clone());
    let (lo, hi) = (a.u("min", 0), a.u("cap", 4 * secs));
    handles.push(
      std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || worker(k, &table, &sh, &next, &busy[k], &prop, base, start, (secs, lo, hi), first.saturating_add(max)))
        .unwrap(),
    );
  }
  // watchdog: a history takes milliseconds; one that takes this much cpu time does not terminate
  let limit = a.u("hang", 12) * 100;
  let mut hangs: Vec<(u64, u64)> = vec![];
  // and one that sleeps all the time waits for something that never comes
  let mut asleep = vec![(0, 0, 0); nt];
  loop {
    std::thread::sleep(Duration::from_millis(100));
    let mut hung = false;
    for (b, zzz) in busy.iter().zip(&mut asleep) {
      if b.on.load(Ordering::SeqCst) {
        let i = b.prog.index.load(Ordering::SeqCst);
        let (t, sleeps) = ticks_and_state(b.tid.load(Ordering::SeqCst));
        *zzz = if sleeps && (zzz.0, zzz.1) == (i, t) { (i, t, zzz.2 + 1) } else { (i, t, 0) };
        let late = t > b.since.load(Ordering::SeqCst) + limit || zzz.2 > 150;
        if late && b.on.load(Ordering::SeqCst) && b.prog.index.load(Ordering::SeqCst) == i {
          let step = b.prog.step.load(Ordering::SeqCst);
          hangs.push((i, step));
          b.on.store(false, Ordering::SeqCst);
          hung = true;
        }
      }
    }
    if hung {
      sh.stop.store(true, Ordering::SeqCst);
      std::thread::sleep(Duration::from_millis(500));
      break;
    }
    if handles.iter().all(|h| h.is_finished()) {
      break;
    }
  }
  let st = sh.stats.lock().unwrap().clone();
  let found = sh.found.lock().unwrap();
  let rep = serde_json::json!({
    "evaluations": sh.evals.load(Ordering::SeqCst),
    "nontrivial": sh.nontrivial.load(Ordering::SeqCst),
    "distinct_nontrivial": sh.distinct.lock().unwrap().len(),
    "distinct_graph_shapes": st.states.len(),
    "observed": st.n,
    "samples": *sh.samples.lock().unwrap(),
    "unattributed": *sh.others.lock().unwrap(),
    "orphans": *sh.orphans.lock().unwrap(),
    "found": *found,
    "hangs": hangs,
    "schemas": table.len(),
    "wall_s": start.elapsed().as_secs_f64(),
  });
  let text = serde_json::to_string_pretty(&rep).unwrap();
  if out.is_empty() {
    println!("{text}");
  } else {
    std::fs::write(out, text).unwrap();
  }
  if !found.is_empty() {
    1
  } else if !hangs.is_empty() {
    4
  } else if sh.harness.load(Ordering::SeqCst) > 0 {
    3
  } else {
    0
  }
}

#[allow(clippy::too_many_arguments)]
fn worker(
  _k: usize, table: &[Entry], sh: &Shared, next: &AtomicU64, busy: &Busy, prop: &str, base: u64, start: Instant, (secs, lo, hi): (u64, u64, u64),
  end: u64,
) {
  busy.tid.store(my_tid(), Ordering::SeqCst);
  let tid = busy.tid.load(Ordering::SeqCst);
  let opts = Opts { views: true, digest: prop == "C17", progress: Some(busy.prog.clone()), ..Default::default() };
  let mut st = Stats::default();
  let mut judged = 0;
  let mut bufs: HashSet<u64> = HashSet::new();
  let mut recent = VecDeque::new();
  let more = || {
    let t = start.elapsed().as_secs();
    t < secs || (t < hi && sh.evals.load(Ordering::Relaxed) < lo)
  };
  while !sh.stop.load(Ordering::SeqCst) && more() {
    let i = next.fetch_add(1, Ordering::SeqCst);
    if i >= end {
      break;
    }
    busy.prog.index.store(i, Ordering::SeqCst);
    busy.prog.at(0);
    busy.since.store(ticks(tid), Ordering::SeqCst);
    busy.on.store(true, Ordering::SeqCst);
    let before = std::mem::take(&mut st.n);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
      one(table, sh, busy, prop, base, i, &opts, &mut st, &mut judged, &mut bufs, &recent)
    }));
    recent.push_back(i);
    if recent.len() > 40 {
      recent.pop_front();
    }
    if r.is_err() {
      *sh.others.lock().unwrap().entry("harness panic".into()).or_insert(0) += 1;
      sh.harness.fetch_add(1, Ordering::SeqCst);
    }
    sh.evals.fetch_add(1, Ordering::Relaxed);
    // merge counters
    let mut s2 = Stats { n: before, states: Default::default() };
    s2.merge(Stats { n: std::mem::take(&mut st.n), states: Default::default() });
    st.n = s2.n;
    busy.on.store(false, Ordering::SeqCst);
  }
  sh.stats.lock().unwrap().merge(st);
  sh.distinct.lock().unwrap().extend(bufs);
}

#[allow(clippy::too_many_arguments)]
fn one(
  table: &[Entry], sh: &Shared, busy: &Busy, prop: &str, base: u64, i: u64, opts: &Opts, st: &mut Stats, judged: &mut u64,
  bufs: &mut HashSet<u64>, recent: &VecDeque<u64>,
) {
    if prop == "C14" {
      reflect_task(table, sh, base, i, st, bufs);
    } else if let Some((k, h)) = make_history(table, prop, base, i) {
      let e = &table[k];
      let r = run(&h, (e.mk)(), st, opts);
      let mut bad = None;
      let mut after = vec![];
      match r.end {
        End::Held if prop != "C16" => {
          if prop == "C17" {
            let r2 = run(&h, (e.mk)(), &mut Stats::default(), opts);
            st.add("histories run twice", 1);
            if r2.full != r.full {
              bad = Some(("Determinism".to_string(), "two runs of the same history differ (indexes, orders, Display or serialized form)".to_string(), 0, h.clone()));
            }
          }
        },
        End::Held => {
          // a graph with the same contents but another past has to react the same way
          let c: Vec<usize> = h.steps.iter().enumerate().filter(|(_, s)| matches!(s, Step::Commit { .. } | Step::Switch { .. })).map(|x| x.0).collect();
          let mut rr = Rng::new(task_seed(base, "again", i));
          let j = props::Judge { e };
          for _ in 0..2 {
            let Some(at) = rr.pick(&c).copied() else { break };
            let Some(steps) = j.afresh(&h, at) else { continue };
            let n = steps.len();
            let h2 = History { schema: h.schema.clone(), steps };
            match run(&h2, (e.mk)(), &mut Stats::default(), opts).end {
              End::Held => st.add("commits and switches repeated on a graph made afresh", 1),
              End::Broken(w) if w.step + 1 == n => {
                bad = Some((format!("Past {:?}", w.kind), format!("a graph made afresh with the same contents reacts differently than the one at step {at} of history {i}: {}", w.msg), w.step, h2));
                break;
              },
              _ => {},
            }
          }
        },
        End::Invalid(w) => *sh.others.lock().unwrap().entry(format!("invalid: {w}")).or_insert(0) += 1,
        End::Broken(v) => {
          *judged += 1;
          busy.on.store(false, Ordering::SeqCst);
          let j = props::Judge { e };
          if *judged <= 400 && j.blames(prop, &h, &v) {
            let same = |c: &History| {
              match run_apart(&[(c, e.mk)], opts) {
                Some(End::Broken(w)) => j.blames(prop, c, &w),
                _ => false,
              }
            };
            busy.on.store(false, Ordering::SeqCst);
            sh.stop.store(true, Ordering::SeqCst);
            let t0 = Instant::now();
            let small = shrink::shrink(&h, |c| t0.elapsed().as_secs() < 20 && same(c), 4000);
            let last = match run_apart(&[(&small, e.mk)], opts) {
              Some(End::Broken(w)) => w,
              _ => v,
            };
            let w = j.blamed(prop, &small, &last).unwrap_or(&last);
            bad = Some((format!("{:?} {:?}", w.kind, w.reason), w.msg.clone(), w.step, small));
          } else if let Some((how, before)) = leak(table, prop, base, (e, &h), *judged, opts, recent) {
            // it only goes wrong after something else happened in the same thread
            sh.stop.store(true, Ordering::SeqCst);
            after = before;
            bad = Some((format!("Leak {:?}", v.kind), format!("{how}: {}", v.msg), v.step, h.clone()));
          } else {
            let key = format!("{:?} {:?}", v.kind, v.reason);
            *sh.others.lock().unwrap().entry(key).or_insert(0) += 1;
            let mut o = sh.orphans.lock().unwrap();
            if o.len() < 4 {
              o.push(i);
            }
          }
        },
      }
      st.add("histories", 1);
      let nt = props::nontrivial(prop, &st.n);
      if nt {
        sh.nontrivial.fetch_add(1, Ordering::Relaxed);
        if bufs.len() < 200_000 {
          bufs.insert(hash_of(&h));
        }
      }
      if nt && h.steps.len() < 25 {
        let mut s = sh.samples.lock().unwrap();
        if s.len() < 3 {
          s.push(serde_json::to_value(&h).unwrap());
        }
      }
      if let Some((kind, message, step, h)) = bad {
        sh.stop.store(true, Ordering::SeqCst);
        sh.found.lock().unwrap().push(Found { property: prop.into(), kind, message, step, index: i, before: after, history: Some(h), extra: String::new() });
      }
    }
}

/// The history holds in a thread of its own. Does it go wrong again in another thread after what
/// happened before it in this one? If so, graphs that have nothing to do with each other interfere.
fn leak(
  table: &[Entry], prop: &str, base: u64, (e, h): (&Entry, &History), judged: u64, opts: &Opts, recent: &VecDeque<u64>,
) -> Option<(String, Vec<History>)> {
  if prop != "C20" || judged > 100 || !matches!(run_apart(&[(h, e.mk)], opts), Some(End::Held)) {
    return None;
  }
  let earlier: Vec<(usize, History)> = recent.iter().filter_map(|i| make_history(table, prop, base, *i)).collect();
  let again = |some: &[(usize, History)]| {
    let mut v: Vec<_> = some.iter().map(|(k, b)| (b, table[*k].mk)).collect();
    v.push((h, e.mk));
    matches!(run_apart(&v, opts), Some(End::Broken(_)))
  };
  for b in earlier.iter().rev() {
    if again(std::slice::from_ref(b)) {
      let small = shrink::shrink(&b.1, |c| again(&[(b.0, c.clone())]), 1000);
      return Some(("holds alone but not after another history in the same thread".into(), vec![small]));
    }
  }
  if again(&earlier) {
    return Some(("holds alone but not after other histories in the same thread".into(), earlier.into_iter().map(|b| b.1).collect()));
  }
  None
}

fn random_node(s: &Schema, r: &mut Rng) -> MNode {
  let var = r.below(s.vars.len());
  let (n, top) = if r.p(0.1) { (30, 40) } else { (5, 9) };
  let links = s.vars[var]
    .fields
    .iter()
    .map(|f| match f.kind {
      Kind::Direct => Link::D(if r.p(0.3) { 0 } else { r.range(1, top) as u64 }),
      Kind::Vec => Link::V((0..r.below(n)).map(|_| if r.p(0.2) { 0 } else { r.range(1, top - 3) as u64 }).collect()),
      _ => Link::S((0..r.below(n)).map(|_| if r.p(0.03) { 0 } else { r.range(1, top) as u64 }).collect()),
    })
    .collect();
  MNode { var, tag: r.range(1, 1000) as u64, val: r.range(0, 500) as i64 - 100, links }
}
fn reflect_task(table: &[Entry], sh: &Shared, base: u64, i: u64, st: &mut Stats, bufs: &mut HashSet<u64>) {
  let mut r = Rng::new(task_seed(base, "C14", i));
  let e = &table[(i as usize) % table.len()];
  for _ in 0..20 {
    let n = random_node(&e.schema, &mut r);
    let o = random_node(&e.schema, &mut r);
    let (c, err) = (e.reflect)(&n, &o, r.next());
    st.add("reflection comparisons", c);
    st.add("nodes reflected", 1);
    if bufs.len() < 200_000 {
      bufs.insert({
        let mut s = std::collections::hash_map::DefaultHasher::new();
        (e.schema.name, n.var, &n.links).hash(&mut s);
        s.finish()
      });
    }
    {
      let mut s = sh.samples.lock().unwrap();
      if s.len() < 3 {
        s.push(serde_json::json!({"schema": e.schema.name, "node": n}));
      }
    }
    if let Some(m) = err {
      sh.stop.store(true, Ordering::SeqCst);
      let extra = serde_json::to_string(&(e.schema.name, &n, &o)).unwrap();
      sh.found.lock().unwrap().push(Found {
        property: "C14".into(),
        kind: "Reflection".into(),
        message: m,
        step: 0,
        index: i,
        before: vec![],
        history: None,
        extra,
      });
      return;
    }
  }
}

/// One line per history: what must be the same in every process and build configuration.
fn digest(table: &Arc<Vec<Entry>>, a: &Args) -> i32 {
  let prop = a.s("prop", "C18");
  let base = a.u("seed", 1);
  let n = a.u("max", 1000);
  let nt = a.u("threads", 8);
  let full = prop == "C17";
  let lines: Arc<Vec<Mutex<String>>> = Arc::new((0..n).map(|_| Mutex::new(String::new())).collect());
  let next = Arc::new(AtomicU64::new(0));
  let busy: Arc<Vec<Busy>> = Arc::new((0..nt).map(|_| Busy::default()).collect());
  let handles: Vec<_> = (0..nt as usize)
    .map(|k| {
      let (table, prop, lines, next, busy) = (table.clone(), prop.clone(), lines.clone(), next.clone(), busy.clone());
      std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
          let b = &busy[k];
          b.tid.store(my_tid(), Ordering::SeqCst);
          loop {
            let i = next.fetch_add(1, Ordering::SeqCst);
            if i >= n {
              break;
            }
            let Some((k, h)) = make_history(&table, &prop, base, i) else { continue };
            b.prog.index.store(i, Ordering::SeqCst);
            b.since.store(ticks(b.tid.load(Ordering::SeqCst)), Ordering::SeqCst);
            b.on.store(true, Ordering::SeqCst);
            let o = Opts { digest: true, views: false, ..Default::default() };
            let r = run(&h, (table[k].mk)(), &mut Stats::default(), &o);
            let line = match &r.end {
              _ if r.needs_debug => format!("{i} skip"),
              End::Held => format!("{i} {:x} {}", r.sem, if full { format!("{:x}", r.full) } else { String::new() }),
              End::Invalid(w) => format!("{i} invalid {w}"),
              End::Broken(v) => format!("{i} broken {:?} {:?} {}", v.kind, v.reason, v.step),
            };
            b.on.store(false, Ordering::SeqCst);
            *lines[i as usize].lock().unwrap() = line;
          }
        })
        .unwrap()
    })
    .collect();
  let limit = a.u("hang", 12) * 100;
  while !handles.iter().all(|h| h.is_finished()) {
    std::thread::sleep(Duration::from_millis(50));
    let mut hung = false;
    for b in busy.iter() {
      let i = b.prog.index.load(Ordering::SeqCst);
      let late = ticks(b.tid.load(Ordering::SeqCst)) > b.since.load(Ordering::SeqCst) + limit;
      if b.on.load(Ordering::SeqCst) && late && b.prog.index.load(Ordering::SeqCst) == i {
        *lines[i as usize].lock().unwrap() = format!("{i} does not return");
        hung = true;
      }
    }
    if hung {
      next.store(n, Ordering::SeqCst);
      std::thread::sleep(Duration::from_millis(300));
      break;
    }
  }
  let text: Vec<String> = lines.iter().map(|l| l.lock().unwrap().clone()).collect();
  std::fs::write(a.s("out", "/dev/stdout"), text.join("\n") + "\n").unwrap();
  0
}

fn replay(table: &[Entry], a: &Args) -> i32 {
  let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(a.s("file", "")).unwrap()).unwrap();
  let h: History = serde_json::from_value(v["history"].clone()).unwrap();
  let Some(e) = table.iter().find(|e| e.schema.name == h.schema) else {
    println!("no schema {}", h.schema);
    return 2;
  };
  let o = Opts { views: true, ..Default::default() };
  let before: Vec<History> = serde_json::from_value(v["before"].clone()).unwrap_or_default();
  for b in &before {
    if let Some(e) = table.iter().find(|e| e.schema.name == b.schema) {
      run(b, (e.mk)(), &mut Stats::default(), &o);
    }
  }
  let r = run(&h, (e.mk)(), &mut Stats::default(), &o);
  match r.end {
    End::Held => {
      println!("held");
      0
    },
    End::Invalid(w) => {
      println!("invalid: {w}");
      2
    },
    End::Broken(v) => {
      println!("{:?} {:?} at step {}: {}", v.kind, v.reason, v.step, v.msg);
      let j = props::Judge { e };
      let ps: Vec<String> = (1..=20).map(|i| format!("C{i:02}")).filter(|p| j.blames(p, &h, &v)).collect();
      println!("violates {ps:?}");
      1
    },
  }
}

fn thread_stress(table: &[Entry], a: &Args) -> i32 {
  let (seed, nt, per, rounds) = (a.u("seed", 1), a.u("threads", 8) as usize, a.u("per", 20_000) as usize, a.u("rounds", 10));
  let secs = a.u("secs", 20);
  let start = Instant::now();
  let mut total = 0;
  let mut done = 0;
  let mut bad = None;
  for i in 0..rounds {
    if start.elapsed().as_secs() >= secs {
      break;
    }
    let e = &table[(i as usize) % table.len()];
    match (e.threads)(mix(seed + i), nt, per) {
      Ok(n) => total += n,
      Err(m) => {
        bad = Some(format!("schema {}: {m}", e.schema.name));
        break;
      },
    }
    done += 1;
  }
  println!("{}", serde_json::json!({"indexes": total, "rounds": done, "threads": nt, "error": bad}));
  bad.is_some() as i32
}

/// Several threads run a history each, of any node type, at the same time and in one context.
fn crowd(table: &Arc<Vec<Entry>>, a: &Args) -> i32 {
  let (base, nt, secs) = (a.u("seed", 1), a.u("threads", 4) as usize, a.u("secs", 10));
  // with nest, the closures and checks of a history run other histories in the same context
  let nest = a.u("nest", 0) > 0;
  let start = Instant::now();
  let mut inner = 0;
  let (mut rounds, mut hist, mut commits, mut turns, mut ids) = (0u64, 0u64, 0u64, 0u64, 0u64);
  let mut orders: HashSet<u64> = HashSet::new();
  let (mut dup, mut bad) = (None, None);
  while start.elapsed().as_secs() < secs && bad.is_none() && dup.is_none() {
    let ctx = ttgraph::Context::new();
    let first = (nt as u64 + 64 * nest as u64) << 40 | rounds * nt as u64;
    let barrier = std::sync::Barrier::new(nt);
    let outs: Vec<Option<Vec<(u64, RunOut, Stats)>>> = std::thread::scope(|sc| {
      let hs: Vec<_> = (0..nt)
        .map(|k| {
          let (ctx, barrier, table) = (&ctx, &barrier, table.clone());
          sc.spawn(move || {
            let table = &table;
            let i = first + k as u64;
            let made = make_history(table, "crowd", base, i);
            real::SHARED.with(|c| *c.borrow_mut() = Some(ctx.clone()));
            barrier.wait();
            let (s, h) = made?;
            let mut st = Stats::default();
            let o = Opts { views: true, jitter: 1 + i, ..Default::default() };
            let nested: Rc<RefCell<Vec<(u64, RunOut, Stats)>>> = Default::default();
            if nest {
              let (nested, table, mut calls) = (nested.clone(), table.clone(), 0);
              real::NEST.with(|n| {
                *n.borrow_mut() = Some(Box::new(move || {
                  calls += 1;
                  if nested.borrow().len() >= 5 || mix(i ^ mix(calls)) % 4 != 0 {
                    return;
                  }
                  let j = 1 << 50 | i << 8 | calls;
                  let Some((s, h)) = make_history(&table, "crowd", base, j) else { return };
                  let mut st = Stats::default();
                  let o = Opts { views: true, jitter: 1 + j, ..Default::default() };
                  let r = run(&h, (table[s].mk)(), &mut st, &o);
                  nested.borrow_mut().push((j, r, st));
                }))
              });
            }
            let r = run(&h, (table[s].mk)(), &mut st, &o);
            real::NEST.with(|n| n.borrow_mut().take());
            let mut all = nested.take();
            all.push((i, r, st));
            Some(all)
          })
        })
        .collect();
      hs.into_iter().map(|h| h.join().ok().flatten()).collect()
    });
    rounds += 1;
    let mut all: Vec<(Id, usize)> = vec![];
    for (k, (n, (i, r, st))) in outs.into_iter().flat_map(|o| o.unwrap_or_default().into_iter().rev().enumerate()).enumerate() {
      hist += 1;
      inner += (n > 0) as u64;
      commits += st.n.get("commits").copied().unwrap_or(0);
      all.extend(r.indexes.iter().map(|x| (*x, k)));
      if let End::Broken(v) = r.end {
        let (s, h) = make_history(table, "crowd", base, i).unwrap();
        let o = Opts { views: true, ..Default::default() };
        let alone = matches!(run_apart(&[(&h, table[s].mk)], &o), Some(End::Held));
        bad = Some(serde_json::json!({"i": i, "kind": format!("{:?}", v.kind), "alone": alone,
          "message": format!("{:?} {:?} at step {}: {}", v.kind, v.reason, v.step, v.msg), "history": h}));
      }
    }
    all.sort();
    ids += all.len() as u64;
    let mut hs = std::collections::hash_map::DefaultHasher::new();
    for w in all.windows(2) {
      if w[0].0 == w[1].0 && w[0].1 != w[1].1 {
        dup = Some(format!("index {} was handed out in history {} and in history {}", w[0].0, w[0].1, w[1].1));
      }
      if w[0].1 != w[1].1 {
        turns += 1;
        (w[0].0, w[1].1).hash(&mut hs);
      }
    }
    orders.insert(hs.finish());
  }
  println!(
    "{}",
    serde_json::json!({"threads": nt, "rounds": rounds, "histories": hist, "nested": inner, "commits": commits, "indexes": ids,
      "alternations": turns, "distinct_interleavings": orders.len(), "twice": dup, "bad": bad})
  );
  (dup.is_some() || bad.is_some()) as i32
}

fn main() {
  real::install_hook();
  let mut it = std::env::args().skip(1);
  let cmd = it.next().unwrap_or_default();
  let mut m = BTreeMap::new();
  for x in it {
    let (k, v) = x.split_once('=').expect("key=value");
    m.insert(k.to_string(), v.to_string());
  }
  let a = Args { m };
  let table = Arc::new(table());
  let rc = match cmd.as_str() {
    "run" => explore(&table, &a),
    "digest" => digest(&table, &a),
    "replay" => replay(&table, &a),
    "judge" => {
      // a history at whose step the library crashed or did not return
      let prop = a.s("prop", "C01");
      let (k, h) = make_history(&table, &prop, a.u("seed", 1), a.u("i", 0)).unwrap();
      let v = Violation::new(VK::UnexpPanic, None, a.u("step", 0) as usize, String::new());
      let b = props::Judge { e: &table[k] }.blames(&prop, &h, &v);
      println!("{}", serde_json::json!({"blames": b, "history": h}));
      b as i32
    },
    "one" => {
      let (k, h) = make_history(&table, &a.s("prop", "C01"), a.u("seed", 1), a.u("i", 0)).unwrap();
      let r = run(&h, (table[k].mk)(), &mut Stats::default(), &Opts { views: true, ..Default::default() });
      match r.end {
        End::Held => println!("held"),
        End::Invalid(w) => println!("invalid {w}"),
        End::Broken(v) => println!("{:?} {:?} at {}: {}", v.kind, v.reason, v.step, v.msg),
      }
      0
    },
    "threads" => thread_stress(&table, &a),
    "crowd" => crowd(&table, &a),
    "show" => {
      let (k, h) = make_history(&table, &a.s("prop", "C01"), a.u("seed", 1), a.u("i", 0)).unwrap();
      println!("{} {}", table[k].schema.name, serde_json::to_string_pretty(&h).unwrap());
      0
    },
    _ => 2,
  };
  // workers that hang must not keep the process alive
  std::process::exit(rc);
}
