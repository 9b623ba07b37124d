//! Operation histories: every sequence up to a depth, on the library and on the service, and
//! explicit-state search over the service's persisted states.
use crate::common::*;
use crate::keys::*;
use crate::model::*;
use crate::sys::*;
use std::collections::HashSet;
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum When {
    /// judge all answers after every operation
    Each,
    /// judge only at the end (nothing is queried in between)
    End,
}

#[derive(Clone)]
pub struct Space {
    pub start: u64,
    pub setup: Vec<Op>,
    pub alphabet: Vec<Op>,
    pub peers: Vec<P>,
    pub probe: Probe,
}

fn run_ops<S: Sys>(s: &mut S, sp: &Space, ops: &[Op], when: When, service: bool, cx: &mut Ctx) -> R {
    let mut w = World::at(sp.start);
    for op in &sp.setup {
        step(s, &mut w, op, service, cx)?;
    }
    for (k, op) in ops.iter().enumerate() {
        step(s, &mut w, op, service, cx)?;
        cx.state(&w);
        // time steps are always followed by a look: expired trusts are collected by queries
        if when == When::Each || k + 1 == ops.len() || matches!(op, Op::Time(_)) {
            let now = w.now;
            observe(s, &mut w.g, &sp.peers, now, sp.probe, cx)?;
        }
    }
    if !w.g.rel.is_empty() {
        cx.nontrivial(&w);
    }
    Ok(())
}
fn history(sp: &Space, depth: usize, i: u64) -> Vec<Op> {
    digits(i, &vec![sp.alphabet.len() as u64; depth]).into_iter().map(|k| sp.alphabet[k].clone()).collect()
}
/// time must not run backwards
fn monotone(start: u64, ops: &[Op]) -> bool {
    let mut now = start;
    for o in ops {
        if let Op::Time(t) = o {
            if *t <= now {
                return false;
            }
            now = *t;
        }
    }
    true
}
/// All histories of exactly `depth` operations on the library.
pub fn lib(name: &str, sp: Space, depth: usize, when: When) -> Box<dyn Family> {
    let total = (sp.alphabet.len() as u64).pow(depth as u32);
    let bounds = format!(
        "library: every sequence of {depth} operations from an alphabet of {} after {} set-up operations, all answers about {} peers judged {:?}; alphabet: {:?}",
        sp.alphabet.len(), sp.setup.len(), sp.peers.len(), when, sp.alphabet
    );
    fam(name, &bounds, total, move |i, cx| {
        let ops = history(&sp, depth, i);
        if !monotone(sp.start, &ops) {
            return Ok(());
        }
        let mut l = Lib::new();
        run_ops(&mut l, &sp, &ops, when, false, cx).map_err(|e| format!("{e}\n  library, setup {:?}, history {ops:?}", sp.setup))?;
        cx.sample(|| format!("{ops:?}"));
        Ok(())
    })
}
/// All histories of exactly `depth` operations on one service incarnation.
pub fn svc(name: &str, sp: Space, depth: usize, when: When) -> Box<dyn Family> {
    let total = (sp.alphabet.len() as u64).pow(depth as u32);
    let bounds = format!(
        "service: every sequence of {depth} operations from an alphabet of {} after {} set-up operations in one service run, all answers about {} peers judged {:?}; alphabet: {:?}",
        sp.alphabet.len(), sp.setup.len(), sp.peers.len(), when, sp.alphabet
    );
    fam(name, &bounds, total, move |i, cx| {
        let ops = history(&sp, depth, i);
        if !monotone(sp.start, &ops) {
            return Ok(());
        }
        incarnate(&Default::default(), |s| run_ops(s, &sp, &ops, when, true, cx))
            .map_err(|e| format!("{e}\n  service, setup {:?}, history {ops:?}", sp.setup))?;
        cx.sample(|| format!("{ops:?}"));
        Ok(())
    })
}

/// Breadth-first search over the states of the service: a state is (model, time, persisted content).
/// Every transition starts a fresh service on the persisted state, applies one operation, judges it.
pub struct Bfs {
    pub name: String,
    pub sp: Space,
    pub depth: usize,
    pub max_states: usize,
}
struct Node {
    w: World,
    images: Images,
    path: Vec<u64>,
}
impl Bfs {
    fn init(&self, cx: &mut Ctx) -> Result<Node, String> {
        let mut w = World::at(self.sp.start);
        let (_, images) = incarnate(&Default::default(), |s| {
            for op in &self.sp.setup {
                step(s, &mut w, op, true, cx)?;
            }
            Ok(())
        })?;
        Ok(Node { w, images, path: vec![] })
    }
    fn next(&self, n: &Node, k: usize, cx: &mut Ctx) -> Result<Option<(Node, u64)>, String> {
        let op = &self.sp.alphabet[k];
        if let Op::Time(t) = op {
            if *t <= n.w.now {
                return Ok(None);
            }
        }
        let mut w = n.w.clone();
        let (dump, images) = incarnate(&n.images, |s| {
            step(s, &mut w, op, true, cx)?;
            let now = w.now;
            observe(s, &mut w.g, &self.sp.peers, now, self.sp.probe, cx)?;
            Ok(db::dump())
        })
        .map_err(|e| format!("{e}\n  after {:?} then {op:?}", n.path.iter().map(|k| &self.sp.alphabet[*k as usize]).collect::<Vec<_>>()))?;
        let key = h64(&(&w, dump));
        let mut path = n.path.clone();
        path.push(k as u64);
        Ok(Some((Node { w, images, path }, key)))
    }
}
impl Family for Bfs {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn bounds(&self) -> String {
        format!(
            "service: breadth-first search over persisted states from {} set-up operations, alphabet of {} operations {:?}, depth at most {}, stops at {} states (reported)",
            self.sp.setup.len(), self.sp.alphabet.len(), self.sp.alphabet, self.depth, self.max_states
        )
    }
    fn explore(&self, sh: &Shared) -> Ctx {
        let mut total = Ctx::default();
        let init = match guarded(|| self.init(&mut total)).and_then(|r| r) {
            Ok(n) => n,
            Err(e) => {
                sh.report(Violation { family: self.name.clone(), case: vec![], what: e });
                return total;
            }
        };
        let mut seen: HashSet<u64> = HashSet::new();
        let mut level = vec![init];
        let mut depth = 0;
        let mut closed = false;
        while depth < self.depth {
            let next: Mutex<Vec<(Node, u64)>> = Mutex::new(vec![]);
            let k = self.sp.alphabet.len() as u64;
            let level_ref = &level;
            let cx = par_cases(
                sh,
                &self.name,
                level.len() as u64 * k,
                |i| {
                    let mut p = level_ref[(i / k) as usize].path.clone();
                    p.push(i % k);
                    p
                },
                |i, cx| {
                    if let Some((n, key)) = self.next(&level_ref[(i / k) as usize], (i % k) as usize, cx)? {
                        cx.state(&n.w);
                        if !n.w.g.rel.is_empty() {
                            cx.nontrivial(&n.w);
                        }
                        next.lock().unwrap().push((n, key));
                    }
                    Ok(())
                },
            );
            total.merge_from(cx);
            if sh.stopped() {
                return total;
            }
            let mut found = next.into_inner().unwrap();
            found.sort_by(|a, b| a.0.path.cmp(&b.0.path));
            let fresh: Vec<Node> = found.into_iter().filter(|(_, key)| seen.insert(*key)).map(|x| x.0).collect();
            depth += 1;
            if fresh.is_empty() {
                closed = true;
                break;
            }
            if seen.len() > self.max_states {
                break;
            }
            level = fresh;
        }
        total.samples = vec![format!(
            "{} persisted states, depth {depth}, {}",
            seen.len(),
            if closed { "closed: every history of any length over the alphabet is covered" } else { "bounded" }
        )];
        total
    }
    fn replay(&self, case: &[u64], cx: &mut Ctx) -> R {
        guarded(|| {
            let mut n = self.init(cx)?;
            for k in case {
                if let Some((m, _)) = self.next(&n, *k as usize, cx)? {
                    n = m;
                }
            }
            Ok(())
        })
        .and_then(|r| r)
    }
}
pub fn bfs(name: &str, sp: Space, depth: usize, max_states: usize) -> Box<dyn Family> {
    Box::new(Bfs { name: name.into(), sp, depth, max_states })
}

// ---------------------------------------------------------------- alphabets

pub fn root(p: P, len: u32) -> Op {
    Op::Root { p, len, owner: true }
}
pub fn t(by: P, s: P, exp: u64, iat: u64) -> Op {
    Op::Trust(link(by, s, exp, iat))
}
pub fn rev(by: P, subj: P, at: u64) -> Op {
    Op::Revoke { by, subj, at, mangle: Mangle::None }
}
/// The mixed alphabet: everything a graph can go through.
pub fn general() -> Space {
    Space {
        start: 100,
        setup: vec![root(0, 3), t(0, 0, 1000, 10)],
        alphabet: vec![
            t(0, 1, 1000, 10),
            t(1, 2, 1000, 10),
            rev(0, 1, 15),
            rev(1, 2, 15),
            rev(0, 2, 15),
            t(0, 1, 150, 20),
            t(1, 2, 1000, 20),
            t(0, 2, 1000, 10),
            t(2, 1, 1000, 10),
            t(1, 1, 1000, 10),
            root(1, 2),
            root(0, 1),
            t(1, 0, 1000, 10),
            Op::Time(150),
        ],
        peers: vec![0, 1, 2],
        probe: Probe::All,
    }
}
pub fn with(mut sp: Space, probe: Probe) -> Space {
    sp.probe = probe;
    sp
}
