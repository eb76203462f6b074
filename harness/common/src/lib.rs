//! Property-based testing engine: sharded generated-input search with proptest generators and shrinking,
//! crash attribution, replay files and measured evidence. See /verif/DESIGN.md.
/// building a strategy costs more than using it, so the ones without parameters are built once
macro_rules! kept {
    ($name:ident, $make:ident, $t:ty) => {
        pub fn $name() -> $crate::proptest::strategy::BoxedStrategy<$t> {
            thread_local!(static S: $crate::proptest::strategy::BoxedStrategy<$t> = $make());
            S.with(|s| s.clone())
        }
    };
}

pub mod dict;
pub mod lang;
pub use proptest;
pub use serde;
pub use serde_json;

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub const SHARDS: u64 = 8;
const STACK: usize = 512 << 20;
/// a case that ordinarily takes well under a second is given this long
const STALL_S: u64 = 100;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
    fn name(self) -> &'static str {
        self.pick("quick", "thorough")
    }
}

/// Why a case was not accepted.
pub enum Bad {
    /// the property does not hold for this case
    Violation(String),
    /// the harness contradicts itself; never reported as a violation
    Harness(String),
}
pub type Check = Result<(), Bad>;
pub fn fail<T>(m: impl Into<String>) -> Result<T, Bad> {
    Err(Bad::Violation(m.into()))
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return $crate::fail(format!($($t)*)); } };
}
#[macro_export]
macro_rules! harness_ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::Bad::Harness(format!($($t)*))); } };
}

/// What a case turned out to exercise.
#[derive(Default)]
pub struct Obs {
    pub trivial: bool,
    pub labels: Vec<&'static str>,
}
impl Obs {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l)
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn trivial_if(&mut self, c: bool) {
        if c {
            self.trivial = true
        }
    }
}

pub trait Prop: Sync + 'static {
    type Case: Clone + std::fmt::Debug + Serialize + DeserializeOwned + 'static;
    fn id(&self) -> &'static str;
    /// how cases are made and what makes one non-trivial
    fn rule(&self) -> &'static str;
    /// number of random cases
    fn cases(&self, tier: Tier) -> u64;
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Self::Case>;
    /// enumerated cases, checked before the random ones
    fn fixed(&self, _tier: Tier) -> Vec<Self::Case> {
        vec![]
    }
    fn check(&self, case: &Self::Case, obs: &mut Obs) -> Check;
    /// labels that must each have been reached by at least this many cases, else the run is an error
    fn required(&self, _tier: Tier) -> Vec<(&'static str, u64)> {
        vec![]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![]
    }
}

/// Panic message of the code under test, as an ordinary value.
pub fn quietly<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "(no message)".into())
    })
}
/// Run code that must not panic.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Bad> {
    quietly(f).map_err(|m| Bad::Violation(format!("{what} panicked: {m}")))
}

fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

fn runner_for(seed: u64, id: &str, index: u64) -> TestRunner {
    let mut s = [0u8; 32];
    s[..8].copy_from_slice(&seed.to_le_bytes());
    s[8..16].copy_from_slice(&fnv(id.as_bytes()).to_le_bytes());
    s[16..24].copy_from_slice(&index.to_le_bytes());
    let cfg = Config { failure_persistence: None, max_global_rejects: 1 << 20, max_local_rejects: 1 << 20, ..Config::default() };
    TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &s))
}

struct Job {
    tier: Tier,
    seed: u64,
}

pub trait Erased: Sync {
    fn id(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn assumptions(&self) -> Vec<&'static str>;
    fn required(&self, tier: Tier) -> Vec<(&'static str, u64)>;
    fn total(&self, tier: Tier) -> (u64, u64);
    fn shard(&self, tier: Tier, seed: u64, shard: u64, upto: u64, dir: &Path) -> i32;
    fn regen(&self, tier: Tier, seed: u64, index: u64, exe: &Path, dir: &Path) -> Value;
    fn one(&self, case: Value) -> Result<Value, Bad>;
}

fn judge<P: Prop>(p: &P, c: &P::Case, obs: &mut Obs) -> Check {
    match catch_unwind(AssertUnwindSafe(|| p.check(c, obs))) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            fail(format!("panic: {m}"))
        }
    }
}

fn shrink<T: ValueTree>(tree: &mut T, mut fails: impl FnMut(&T::Value) -> Option<String>, first: String, limit: Duration) -> (T::Value, String) {
    let (mut best, mut msg) = (tree.current(), first);
    let t0 = Instant::now();
    let mut steps = 0;
    'outer: while tree.simplify() {
        loop {
            steps += 1;
            if steps > 20000 || t0.elapsed() > limit {
                break 'outer;
            }
            let c = tree.current();
            match fails(&c) {
                Some(m) => {
                    best = c;
                    msg = m;
                    break;
                }
                None => {
                    if !tree.complicate() {
                        break 'outer;
                    }
                }
            }
        }
    }
    (best, msg)
}

impl<P: Prop> Erased for P {
    fn id(&self) -> &'static str {
        Prop::id(self)
    }
    fn rule(&self) -> &'static str {
        Prop::rule(self)
    }
    fn assumptions(&self) -> Vec<&'static str> {
        Prop::assumptions(self)
    }
    fn required(&self, tier: Tier) -> Vec<(&'static str, u64)> {
        Prop::required(self, tier)
    }
    fn total(&self, tier: Tier) -> (u64, u64) {
        (self.fixed(tier).len() as u64, self.cases(tier))
    }
    fn shard(&self, tier: Tier, seed: u64, shard: u64, upto: u64, dir: &Path) -> i32 {
        let id = Prop::id(self);
        let fixed = self.fixed(tier);
        let nf = fixed.len() as u64;
        let total = nf + self.cases(tier);
        let strat = self.strategy(tier);
        let at = fs::File::create(dir.join(format!("at.{shard}"))).unwrap();
        let mut hashes: HashSet<u64> = HashSet::new();
        let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
        let mut samples: Vec<Value> = vec![];
        let (mut evals, mut nontrivial) = (0u64, 0u64);
        let mut outcome: Option<Value> = None;
        let slow: Option<u64> = std::env::var("PBT_SLOW_MS").ok().and_then(|s| s.parse().ok());
        let mut i = shard;
        while i < total && i <= upto {
            at.write_all_at(&i.to_le_bytes(), 0).unwrap();
            let mut runner;
            let mut tree = None;
            let case = if i < nf {
                fixed[i as usize].clone()
            } else {
                runner = runner_for(seed, id, i - nf);
                let t = match strat.new_tree(&mut runner) {
                    Ok(t) => t,
                    Err(e) => {
                        outcome = Some(json!({"harness": format!("generator rejected too much: {e}")}));
                        break;
                    }
                };
                let c = t.current();
                tree = Some(t);
                c
            };
            let mut obs = Obs::default();
            let t0 = Instant::now();
            let r = judge(self, &case, &mut obs);
            if slow.is_some_and(|ms| t0.elapsed() > Duration::from_millis(ms)) {
                eprintln!("SLOW {:?} case {i}: {}", t0.elapsed(), serde_json::to_string(&case).unwrap());
            }
            evals += 1;
            for l in &obs.labels {
                *labels.entry(l).or_insert(0) += 1;
            }
            if !obs.trivial {
                nontrivial += 1;
                hashes.insert(fnv(&serde_json::to_vec(&case).unwrap()));
                if nontrivial.is_power_of_two() && nontrivial.trailing_zeros() % 2 == 0 {
                    let v = serde_json::to_value(&case).unwrap();
                    if serde_json::to_string(&v).unwrap().len() < 3000 && depth(&v) < 60 {
                        samples.push(json!({"index": i, "case": v, "labels": obs.labels}));
                    }
                }
            }
            match r {
                Ok(()) => {}
                Err(Bad::Harness(m)) => {
                    outcome = Some(json!({"harness": m, "case": serde_json::to_value(&case).unwrap()}));
                    break;
                }
                Err(Bad::Violation(m)) => {
                    let (c, m) = match tree.as_mut() {
                        None => (case, m),
                        Some(t) => {
                            let f = |c: &P::Case| match judge(self, c, &mut Obs::default()) {
                                Err(Bad::Violation(m)) => Some(m),
                                _ => None,
                            };
                            shrink(t, f, m, Duration::from_secs(40))
                        }
                    };
                    outcome = Some(json!({"violation": m, "index": i, "case": serde_json::to_value(&c).unwrap()}));
                    break;
                }
            }
            i += SHARDS;
        }
        let mut h: Vec<u8> = Vec::with_capacity(hashes.len() * 8);
        for x in &hashes {
            h.extend_from_slice(&x.to_le_bytes());
        }
        fs::write(dir.join(format!("hash.{shard}")), h).unwrap();
        let out = json!({"evals": evals, "nontrivial": nontrivial, "labels": labels, "samples": samples, "outcome": outcome});
        fs::write(dir.join(format!("out.{shard}")), serde_json::to_vec(&out).unwrap()).unwrap();
        0
    }
    /// Recreate case `index` without running it, then shrink it with every candidate in a process of its own.
    fn regen(&self, tier: Tier, seed: u64, index: u64, exe: &Path, dir: &Path) -> Value {
        let fixed = self.fixed(tier);
        let nf = fixed.len() as u64;
        if index < nf {
            return serde_json::to_value(&fixed[index as usize]).unwrap();
        }
        let strat = self.strategy(tier);
        let mut runner = runner_for(seed, Prop::id(self), index - nf);
        let mut tree = strat.new_tree(&mut runner).unwrap();
        let first = tree.current();
        let f = |c: &P::Case| match isolated(exe, Prop::id(self), &serde_json::to_value(c).unwrap(), dir) {
            Iso::Violation(m) => Some(m),
            _ => None,
        };
        if f(&first).is_none() {
            return serde_json::to_value(&first).unwrap();
        }
        let (best, _) = shrink(&mut tree, f, String::new(), Duration::from_secs(60));
        serde_json::to_value(&best).unwrap()
    }
    fn one(&self, case: Value) -> Result<Value, Bad> {
        let c: P::Case = serde_json::from_value(case).map_err(|e| Bad::Harness(format!("bad replay case: {e}")))?;
        let mut obs = Obs::default();
        judge(self, &c, &mut obs)?;
        Ok(json!({"trivial": obs.trivial, "labels": obs.labels}))
    }
}

fn depth(v: &Value) -> usize {
    match v {
        Value::Array(a) => 1 + a.iter().map(depth).max().unwrap_or(0),
        Value::Object(o) => 1 + o.values().map(depth).max().unwrap_or(0),
        _ => 0,
    }
}
/// without serde_json's own limit of 128 levels
fn read_json(b: &[u8]) -> Result<Value, String> {
    let mut d = serde_json::Deserializer::from_slice(b);
    d.disable_recursion_limit();
    let v = Value::deserialize(&mut d).map_err(|e| e.to_string())?;
    d.end().map_err(|e| e.to_string())?;
    Ok(v)
}

pub enum Iso {
    Fine,
    Violation(String),
    /// no answer in time, or more memory than allowed
    Resource(String),
    Error(String),
}

fn describe_death(status: std::process::ExitStatus, err: &str) -> Iso {
    let tail: String = err.lines().filter(|l| !l.trim().is_empty()).rev().take(2).collect::<Vec<_>>().join(" / ");
    if err.contains("memory allocation of") {
        return Iso::Resource(format!("runs out of 6 GB of memory: {tail}"));
    }
    match status.signal() {
        // SIGKILL and SIGXCPU come from the machine or the limits, not from the code
        Some(9) | Some(24) => Iso::Error(format!("killed by signal {}", status.signal().unwrap())),
        Some(s) => Iso::Violation(format!("the process died with signal {s}: {tail}")),
        None => Iso::Error(format!("exit status {:?}: {tail}", status.code())),
    }
}

fn isolated(exe: &Path, id: &str, case: &Value, dir: &Path) -> Iso {
    let cin = dir.join("one.in");
    fs::write(&cin, serde_json::to_vec(case).unwrap()).unwrap();
    let err = dir.join("one.err");
    let mut ch = Command::new(exe)
        .args(["one", id, cin.to_str().unwrap()])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(fs::File::create(&err).unwrap())
        .spawn()
        .unwrap();
    let t0 = Instant::now();
    let st = loop {
        match ch.try_wait().unwrap() {
            Some(s) => break s,
            None if t0.elapsed() > Duration::from_secs(STALL_S) => {
                let _ = ch.kill();
                let _ = ch.wait();
                return Iso::Resource(format!("gives no answer within {STALL_S} s"));
            }
            None => std::thread::sleep(Duration::from_millis(2)),
        }
    };
    let mut e = String::new();
    let mut b = vec![];
    if let Ok(mut f) = fs::File::open(&err) {
        let _ = f.read_to_end(&mut b);
        e = String::from_utf8_lossy(&b).into_owned();
    }
    match st.code() {
        Some(0) => Iso::Fine,
        Some(1) => Iso::Violation(e.lines().last().unwrap_or("").to_string()),
        _ => describe_death(st, &e),
    }
}

fn die(m: impl AsRef<str>) -> i32 {
    eprintln!("ERROR {}", m.as_ref());
    2
}

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").expect("VERIF_ROOT"))
}

fn scratch(tag: &str) -> PathBuf {
    let d = root().join("build").join("run").join(format!("{tag}.{}", std::process::id()));
    fs::create_dir_all(&d).unwrap();
    d
}

fn write_replay(id: &str, body: &Value) -> PathBuf {
    let dir = root().join("replays");
    fs::create_dir_all(&dir).unwrap();
    let text = serde_json::to_string_pretty(body).unwrap();
    let p = dir.join(format!("{id}-{:016x}.json", fnv(text.as_bytes())));
    fs::write(&p, text).unwrap();
    p
}

fn parent(p: &dyn Erased, job: &Job) -> i32 {
    let t0 = Instant::now();
    let id = p.id();
    let exe = std::env::current_exe().unwrap();
    let dir = scratch(id);
    let code = (|| {
        let mut kids = vec![];
        for s in 0..SHARDS {
            let err = fs::File::create(dir.join(format!("err.{s}"))).unwrap();
            let ch = Command::new(&exe)
                .args(["shard", id, job.tier.name(), &job.seed.to_string(), &s.to_string(), &u64::MAX.to_string(), dir.to_str().unwrap()])
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(err)
                .spawn();
            match ch {
                Ok(c) => kids.push((s, c, None, 0u64, Instant::now())),
                Err(e) => return die(format!("cannot start a shard: {e}")),
            }
        }
        let mut stuck = None;
        loop {
            let mut running = false;
            for i in 0..kids.len() {
                let (s, ch, done, last, since) = &mut kids[i];
                if done.is_some() {
                    continue;
                }
                match ch.try_wait().unwrap() {
                    Some(st) => *done = Some(st),
                    None => {
                        running = true;
                        let now = read_at(&dir, *s).map(|x| x + 1).unwrap_or(0);
                        if now != *last {
                            *last = now;
                            *since = Instant::now();
                        } else if since.elapsed() > Duration::from_secs(STALL_S) {
                            // this shard is stuck on one case: judged below, on its own
                            let at = *last;
                            for k in kids.iter_mut().filter(|k| k.2.is_none()) {
                                let _ = k.1.kill();
                                let _ = k.1.wait();
                            }
                            stuck = at.checked_sub(1);
                            break;
                        }
                    }
                }
            }
            if !running || stuck.is_some() {
                break;
            }
            std::thread::sleep(Duration::from_millis(10));
        }
        let (mut evals, mut nontrivial) = (0u64, 0u64);
        let mut hashes: HashSet<u64> = HashSet::new();
        let mut labels: BTreeMap<String, u64> = BTreeMap::new();
        let mut samples: Vec<Value> = vec![];
        let mut found: Vec<(u64, Value, String)> = vec![];
        let mut errors: Vec<String> = vec![];
        if let Some(at) = stuck {
            let c = p.regen(job.tier, job.seed, at, &exe, &dir);
            match isolated(&exe, id, &c, &dir) {
                Iso::Resource(m) | Iso::Violation(m) => found.push((at, c, m)),
                _ => errors.push(format!("no progress for {STALL_S} s at case {at}, but the case alone finishes; inconclusive")),
            }
        }
        for (s, _, done, _, _) in &kids {
            let Some(st) = done else { continue };
            let st = *st;
            let out = fs::read(dir.join(format!("out.{s}"))).ok().and_then(|b| read_json(&b).ok());
            match (st.code(), out) {
                (Some(0), Some(o)) => {
                    evals += o["evals"].as_u64().unwrap();
                    nontrivial += o["nontrivial"].as_u64().unwrap();
                    for (k, v) in o["labels"].as_object().unwrap() {
                        *labels.entry(k.clone()).or_insert(0) += v.as_u64().unwrap();
                    }
                    samples.extend(o["samples"].as_array().unwrap().iter().cloned());
                    for c in fs::read(dir.join(format!("hash.{s}"))).unwrap().chunks(8) {
                        hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
                    }
                    let oc = &o["outcome"];
                    if let Some(m) = oc["violation"].as_str() {
                        found.push((oc["index"].as_u64().unwrap(), oc["case"].clone(), m.to_string()));
                    } else if let Some(m) = oc["harness"].as_str() {
                        errors.push(format!("harness error: {m} on {}", oc["case"]));
                    }
                }
                _ => {
                    let e = fs::read(dir.join(format!("err.{s}"))).unwrap_or_default();
                    let e = String::from_utf8_lossy(&e).into_owned();
                    match (describe_death(st, &e), read_at(&dir, *s)) {
                        (Iso::Violation(m), Some(at)) => {
                            let c = p.regen(job.tier, job.seed, at, &exe, &dir);
                            found.push((at, c, m));
                        }
                        (Iso::Resource(_), Some(at)) => {
                            let c = p.regen(job.tier, job.seed, at, &exe, &dir);
                            match isolated(&exe, id, &c, &dir) {
                                Iso::Resource(m) | Iso::Violation(m) => found.push((at, c, m)),
                                _ => errors.push(format!("shard {s} ran out of memory at case {at}, but the case alone does not")),
                            }
                        }
                        (Iso::Violation(m) | Iso::Resource(m), None) | (Iso::Error(m), _) => errors.push(format!("shard {s}: {m}")),
                        (Iso::Fine, _) => unreachable!(),
                    }
                }
            }
        }
        samples.sort_by_key(|s| s["index"].as_u64().unwrap());
        let mut chosen: Vec<Value> = vec![];
        let step = samples.len().div_ceil(12).max(1);
        for s in samples.iter().step_by(step) {
            chosen.push(s.clone());
        }
        let (nf, nr) = p.total(job.tier);
        let mut ev = json!({
            "property": id, "tier": job.tier.name(), "seed": job.seed, "level": "exploration",
            "coverage": {
                "evaluations": evals, "distinct_nontrivial": hashes.len(), "nontrivial_evaluations": nontrivial,
                "rule": p.rule(), "samples": chosen, "labels": labels,
                "enumerated_cases_planned": nf, "random_cases_planned": nr,
            },
            "assumptions": p.assumptions(),
            "violations": found.len(),
        });
        let mut code = 0;
        found.sort_by_key(|f| f.0);
        if let Some((index, case, msg)) = found.first() {
            let (how, body) = match isolated(&exe, id, case, &dir) {
                Iso::Violation(m) | Iso::Resource(m) => {
                    let m = if m.is_empty() { msg.clone() } else { m };
                    (m.clone(), json!({"property": id, "mode": "case", "case": case, "message": m}))
                }
                _ => (
                    format!("{msg} (needs the cases before it in the same process)"),
                    json!({"property": id, "mode": "shard", "tier": job.tier.name(), "seed": job.seed, "shard": index % SHARDS, "upto": index, "message": msg}),
                ),
            };
            let path = write_replay(id, &body);
            let line = |s: String| match s.char_indices().nth(4000) {
                Some((i, _)) => println!("{}... (the rest is in the replay file)", &s[..i]),
                None => println!("{s}"),
            };
            line(format!("case: {case}"));
            line(how.replace('\n', "\\n"));
            println!("VIOLATION property={id} replay={}", path.display());
            code = 1;
        } else if !errors.is_empty() {
            for e in &errors {
                code = die(format!("{id}: {e}"));
            }
        } else {
            for (l, n) in p.required(job.tier) {
                let have = labels.get(l).copied().unwrap_or(0);
                if have < n {
                    code = die(format!("{id}: class `{l}` was reached by {have} cases, fewer than {n}: the search was too weak"));
                }
            }
        }
        ev["wall_s"] = json!(t0.elapsed().as_secs_f64());
        let evdir = root().join("evidence");
        fs::create_dir_all(&evdir).unwrap();
        fs::write(evdir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
        if code == 0 {
            println!("OK property={id} tier={} cases={evals} distinct_nontrivial={} wall={:.1}s", job.tier.name(), hashes.len(), t0.elapsed().as_secs_f64());
        }
        code
    })();
    let _ = fs::remove_dir_all(&dir);
    code
}

fn read_at(dir: &Path, s: u64) -> Option<u64> {
    let b = fs::read(dir.join(format!("at.{s}"))).ok()?;
    Some(u64::from_le_bytes(b.get(..8)?.try_into().ok()?))
}

fn replay(props: &[Box<dyn Erased>], file: &str) -> i32 {
    let v: Value = match fs::read(file).map_err(|e| e.to_string()).and_then(|b| read_json(&b)) {
        Ok(v) => v,
        Err(e) => return die(format!("cannot read {file}: {e}")),
    };
    let id = v["property"].as_str().unwrap_or("");
    let Some(p) = props.iter().find(|p| p.id() == id) else { return die(format!("unknown property {id}")) };
    let dir = scratch("replay");
    let exe = std::env::current_exe().unwrap();
    let r = if v["mode"] == "shard" {
        let tier = if v["tier"] == "thorough" { "thorough" } else { "quick" };
        let (seed, shard, upto) = (v["seed"].to_string(), v["shard"].to_string(), v["upto"].to_string());
        let st = Command::new(&exe).args(["shard", id, tier, &seed, &shard, &upto, dir.to_str().unwrap()]).stdout(Stdio::null()).status().unwrap();
        let out = fs::read(dir.join(format!("out.{shard}"))).ok().and_then(|b| read_json(&b).ok());
        match (st.code(), out) {
            (Some(0), Some(o)) if o["outcome"].is_null() => Iso::Fine,
            (Some(0), Some(o)) => match o["outcome"]["violation"].as_str() {
                Some(m) => Iso::Violation(m.to_string()),
                None => Iso::Error(o["outcome"].to_string()),
            },
            _ => describe_death(st, ""),
        }
    } else {
        isolated(&exe, p.id(), &v["case"], &dir)
    };
    let _ = fs::remove_dir_all(&dir);
    match r {
        Iso::Fine => {
            println!("OK property={id}: the replayed case holds");
            0
        }
        Iso::Violation(m) | Iso::Resource(m) => {
            println!("{m}");
            println!("VIOLATION property={id} replay={file}");
            1
        }
        Iso::Error(m) => die(m),
    }
}

fn limits() {
    // no core files; bounded address space so that a runaway case cannot take the machine down
    extern "C" {
        fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
    }
    unsafe {
        setrlimit(4, &[0, 0]);
        setrlimit(9, &[6u64 << 30, 6u64 << 30]);
    }
}

fn on_big_stack(f: impl FnOnce() -> i32 + Send + 'static) -> i32 {
    std::thread::Builder::new().stack_size(STACK).spawn(f).unwrap().join().unwrap_or(3)
}

pub fn main_with(make: fn() -> Vec<Box<dyn Erased>>) -> ! {
    let a: Vec<String> = std::env::args().collect();
    let props = make();
    let find = |id: &str| make().into_iter().find(|p| p.id() == id);
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let tier = match std::env::var("VERIF_TIER").as_deref() {
                Ok("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64;
            match find(&a[2]) {
                Some(p) => parent(p.as_ref(), &Job { tier, seed }),
                None => die(format!("unknown property {}", a[2])),
            }
        }
        Some("shard") => {
            limits();
            std::panic::set_hook(Box::new(|_| {}));
            let a = a.clone();
            on_big_stack(move || {
                let p = make().into_iter().find(|p| p.id() == a[2]).unwrap();
                let tier = if a[3] == "thorough" { Tier::Thorough } else { Tier::Quick };
                p.shard(tier, a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap(), Path::new(&a[7]))
            })
        }
        Some("one") => {
            limits();
            std::panic::set_hook(Box::new(|_| {}));
            let a = a.clone();
            on_big_stack(move || {
                let p = make().into_iter().find(|p| p.id() == a[2]).unwrap();
                let case = read_json(&fs::read(&a[3]).unwrap()).unwrap();
                match p.one(case) {
                    Ok(_) => 0,
                    Err(Bad::Violation(m)) => {
                        let _ = writeln!(std::io::stderr(), "{}", m.replace('\n', "\\n"));
                        1
                    }
                    Err(Bad::Harness(m)) => die(m),
                }
            })
        }
        Some("replay") => replay(&props, &a[2]),
        Some("list") => {
            for p in &props {
                println!("{}", p.id());
            }
            0
        }
        _ => die("usage: run ID | replay FILE | list"),
    };
    std::process::exit(code)
}

/// Boxed strategy helper.
pub fn boxed<S>(s: S) -> BoxedStrategy<S::Value>
where
    S: Strategy + 'static,
{
    s.boxed()
}
