use crate::cx::{clip, Cx, Rng};
use crate::props::{self, Spec};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

struct Args {
  prop: String,
  tier: String,
  seed: u64,
  evidence: PathBuf,
  replay_dir: PathBuf,
  scratch: PathBuf,
  known: PathBuf,
  worker: Option<(u64, u64)>,
  from: u64,
  only: Option<u64>,
  out: PathBuf,
  scale: f64,
  workers: Option<u64>,
}

fn parse() -> Args {
  let mut a = Args {
    prop: String::new(),
    tier: "quick".into(),
    seed: 1,
    evidence: PathBuf::new(),
    replay_dir: PathBuf::from("/verif/evidence/replay"),
    scratch: std::env::temp_dir(),
    known: PathBuf::from("/verif/known_findings.json"),
    worker: None,
    from: 0,
    only: None,
    out: PathBuf::new(),
    scale: 1.0,
    workers: None,
  };
  let mut it = std::env::args().skip(1);
  while let Some(x) = it.next() {
    let mut v = || it.next().unwrap_or_default();
    match x.as_str() {
      "--tier" => a.tier = v(),
      "--seed" => a.seed = v().parse().unwrap_or(1),
      "--evidence" => a.evidence = v().into(),
      "--replay-dir" => a.replay_dir = v().into(),
      "--scratch" => a.scratch = v().into(),
      "--known" => a.known = v().into(),
      "--worker" => {
        let s = v();
        let (i, n) = s.split_once('/').unwrap();
        a.worker = Some((i.parse().unwrap(), n.parse().unwrap()));
      },
      "--from" => a.from = v().parse().unwrap(),
      "--only" => a.only = Some(v().parse().unwrap()),
      "--out" => a.out = v().into(),
      "--scale" => a.scale = v().parse().unwrap(),
      "--workers" => a.workers = Some(v().parse().unwrap()),
      p => a.prop = p.to_string(),
    }
  }
  a
}

pub fn main() -> i32 {
  let a = parse();
  let spec = match props::find(&a.prop) {
    Some(s) => s,
    None => {
      eprintln!("unknown property {:?}; known: {:?}", a.prop, props::ids());
      return 2;
    },
  };
  if a.worker.is_some() { worker(&a, &spec) } else { supervise(&a, &spec) }
}

fn n_cases(a: &Args, spec: &Spec) -> u64 {
  let n = if a.tier == "thorough" { spec.quick * props::THOROUGH } else { spec.quick };
  ((n as f64 * a.scale) as u64).max(spec.fixed).max(1)
}

/* ---------------------------------------------------------------- worker */

static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

fn worker(a: &Args, spec: &Spec) -> i32 {
  std::panic::set_hook(Box::new(|info| {
    let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    let msg = info
      .payload()
      .downcast_ref::<&str>()
      .map(|s| s.to_string())
      .or_else(|| info.payload().downcast_ref::<String>().cloned())
      .unwrap_or_default();
    if let Ok(mut g) = LAST_PANIC.lock() {
      // keep the first panic of a case: later ones are usually consequences (poisoned locks, pool
      // propagation)
      if g.is_none() {
        *g = Some((loc, msg));
      }
    }
  }));
  let (shard, shards) = a.worker.unwrap();
  let mut cx = Cx {
    rng: Rng::new(0),
    case: 0,
    thorough: a.tier == "thorough",
    evaluations: 0,
    distinct: HashSet::new(),
    counters: BTreeMap::new(),
    samples: Vec::new(),
    viols: Vec::new(),
    inconclusive: Vec::new(),
    doing: String::new(),
    scratch: a.scratch.clone(),
  };
  let journal = a.out.with_extension("journal");
  let total = n_cases(a, spec);
  let mut cases = 0u64;
  let range: Vec<u64> = match a.only {
    Some(k) => vec![k],
    None => (a.from..total).filter(|k| k % shards == shard).collect(),
  };
  let mut jf = std::fs::OpenOptions::new()
    .create(true)
    .write(true)
    .truncate(false)
    .open(&journal)
    .expect("journal");
  let mut finished = true;
  for k in range {
    {
      use std::os::unix::fs::FileExt;
      let _ = jf.write_all_at(format!("{k:020}").as_bytes(), 0);
    }
    cx.case = k;
    cx.doing.clear();
    cx.rng = Rng::new(
      a.seed
        .wrapping_mul(0x9E3779B97F4A7C15)
        .wrapping_add(crate::cx::hash_of(spec.id))
        .wrapping_add(k.wrapping_mul(0xD1B54A32D192ED03)),
    );
    *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = None;
    let f = spec.run;
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut cx, k)));
    cases += 1;
    if r.is_err() {
      let (loc, msg) = LAST_PANIC
        .lock()
        .unwrap_or_else(|e| e.into_inner())
        .take()
        .unwrap_or_default();
      if is_monitor_location(&loc) && is_environment(&msg) {
        cx.inconclusive.push(format!("case {k}: monitor error at {loc}: {msg}"));
      } else if is_monitor_location(&loc) {
        // the monitor is deterministic and copes with everything a correct library returns
        let doing = cx.doing.clone();
        cx.fail("refused", format!("the library returned something that cannot be right (the monitor gave up at {loc}: {})\nwhile: {doing}", clip(&msg, 400)));
      } else {
        let doing = cx.doing.clone();
        cx.fail("panic", format!("the library panicked at {loc}: {}\nwhile: {doing}", clip(&msg, 400)));
      }
    }
    if cx.viols.len() >= 25 {
      finished = false;
      break;
    }
  }
  let _ = jf.flush();
  let mut distinct: Vec<u64> = cx.distinct.iter().copied().collect();
  distinct.sort_unstable();
  let bin: Vec<u8> = distinct.iter().flat_map(|x| x.to_le_bytes()).collect();
  std::fs::write(a.out.with_extension("distinct"), bin).expect("distinct");
  let v = json!({
    "cases": cases,
    "finished": finished,
    "evaluations": cx.evaluations,
    "counters": cx.counters,
    "samples": cx.samples,
    "inconclusive": cx.inconclusive,
    "violations": cx.viols.iter().map(|v| json!({"case": v.case, "key": v.key, "detail": v.detail})).collect::<Vec<_>>(),
  });
  std::fs::write(&a.out, v.to_string()).expect("out");
  0
}

/// Panics raised by the monitor's own sources are harness errors, not observations.
fn is_monitor_location(loc: &str) -> bool {
  loc.starts_with("src/") || loc.contains("/harness/monitor/src/")
}

/// Failures of the sandbox (files, threads) or of the generator decide nothing about the library.
fn is_environment(msg: &str) -> bool {
  ["Os { code", "ThreadPoolBuildError", "generated XML", "Custom { kind"].iter().any(|m| msg.contains(m))
}

/* ---------------------------------------------------------------- supervisor */

struct Merged {
  cases: u64,
  evaluations: u64,
  distinct: HashSet<u64>,
  counters: BTreeMap<String, u64>,
  samples: Vec<Value>,
  viols: Vec<(u64, String, String)>,
  inconclusive: Vec<String>,
}

fn spawn(a: &Args, shard: u64, shards: u64, from: u64, only: Option<u64>, out: &Path, cpu: Option<u64>) -> std::process::Child {
  let exe = std::env::current_exe().unwrap();
  let mut c = Command::new(exe);
  c.arg(&a.prop)
    .args(["--tier", &a.tier, "--seed", &a.seed.to_string()])
    .args(["--worker", &format!("{shard}/{shards}"), "--from", &from.to_string()])
    .args(["--scale", &a.scale.to_string()])
    .arg("--out")
    .arg(out)
    .arg("--scratch")
    .arg(&a.scratch);
  if let Some(k) = only {
    c.args(["--only", &k.to_string()]);
  }
  let stderr = if std::env::var_os("MONITOR_STDERR").is_some() {
    Stdio::inherit()
  } else {
    Stdio::null()
  };
  c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(stderr);
  unsafe {
    c.pre_exec(move || {
      if let Some(s) = cpu {
        let l = libc::rlimit { rlim_cur: s, rlim_max: s + 5 };
        libc::setrlimit(libc::RLIMIT_CPU, &l);
      }
      let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
      libc::setrlimit(libc::RLIMIT_CORE, &core);
      // a library that eats memory without bound dies here, not with the whole sandbox
      let data = libc::rlimit { rlim_cur: 5 << 29, rlim_max: 5 << 29 };
      libc::setrlimit(libc::RLIMIT_DATA, &data);
      libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
      Ok(())
    });
  }
  c.spawn().expect("spawn worker")
}

/// Waits for the worker; kills it if one case makes no progress for `stall`.
/// Returns the exit status and, if there is none, whether the process was waiting idly (a deadlock)
/// rather than computing.
fn wait(child: &mut std::process::Child, journal: &Path, stall: Duration) -> (Option<std::process::ExitStatus>, bool) {
  let mut last = String::new();
  let mut since = Instant::now();
  let mut cpu = 0;
  loop {
    if let Ok(Some(st)) = child.try_wait() {
      return (Some(st), false);
    }
    let now = std::fs::read_to_string(journal).unwrap_or_default();
    if now != last {
      last = now;
      since = Instant::now();
      cpu = cpu_ticks(child.id());
    } else if since.elapsed() > stall {
      let idle = cpu_ticks(child.id()).saturating_sub(cpu) < 300;
      let _ = child.kill();
      let _ = child.wait();
      return (None, idle);
    }
    std::thread::sleep(Duration::from_millis(15));
  }
}

/// CPU time used by a worker so far, in clock ticks
fn cpu_ticks(pid: u32) -> u64 {
  let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
  let f: Vec<u64> = s.rsplit(')').next().unwrap_or("").split_whitespace().map(|x| x.parse().unwrap_or(0)).collect();
  f.get(11).copied().unwrap_or(0) + f.get(12).copied().unwrap_or(0)
}

fn read_result(out: &Path, m: &mut Merged) -> bool {
  let v: Value = match std::fs::read(out).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
    Some(v) => v,
    None => return false,
  };
  m.cases += v["cases"].as_u64().unwrap_or(0);
  m.evaluations += v["evaluations"].as_u64().unwrap_or(0);
  if let Ok(b) = std::fs::read(out.with_extension("distinct")) {
    for c in b.chunks_exact(8) {
      m.distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
    }
  }
  if let Some(o) = v["counters"].as_object() {
    for (k, n) in o {
      *m.counters.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
    }
  }
  if let Some(s) = v["samples"].as_array() {
    m.samples.extend(s.iter().take(2).cloned());
  }
  for x in v["violations"].as_array().into_iter().flatten() {
    m.viols.push((
      x["case"].as_u64().unwrap_or(0),
      x["key"].as_str().unwrap_or("").into(),
      x["detail"].as_str().unwrap_or("").into(),
    ));
  }
  for x in v["inconclusive"].as_array().into_iter().flatten() {
    m.inconclusive.push(x.as_str().unwrap_or("").into());
  }
  true
}

fn run_shard(a: &Args, spec: &Spec, shard: u64, shards: u64, dir: &Path) -> Merged {
  let mut m = Merged {
    cases: 0,
    evaluations: 0,
    distinct: HashSet::new(),
    counters: BTreeMap::new(),
    samples: Vec::new(),
    viols: Vec::new(),
    inconclusive: Vec::new(),
  };
  let mut from = 0;
  for attempt in 0..6 {
    let out = dir.join(format!("s{shard}-{attempt}.json"));
    let journal = out.with_extension("journal");
    let mut child = spawn(a, shard, shards, from, a.only, &out, None);
    let (st, idle) = wait(&mut child, &journal, Duration::from_secs(spec.stall_s));
    if let Some(st) = st {
      if st.success() {
        if !read_result(&out, &mut m) {
          m.inconclusive.push(format!("shard {shard}: no result file"));
        }
        return m;
      }
    }
    // crashed or stalled: which case, and does it do so again on its own?
    let k: u64 = match std::fs::read_to_string(&journal).ok().and_then(|s| s.trim().parse().ok()) {
      Some(k) => k,
      None => {
        m.inconclusive.push(format!("shard {shard}: worker died before its first case ({st:?})"));
        return m;
      },
    };
    let out1 = dir.join(format!("s{shard}-{attempt}-only.json"));
    let cpu = spec.cpu_s;
    let mut again = spawn(a, shard, shards, 0, Some(k), &out1, Some(cpu));
    let (st1, idle1) = wait(&mut again, &out1.with_extension("journal"), Duration::from_secs(spec.stall_s * 4));
    let sig = st1.as_ref().and_then(|s| s.signal());
    let crash = st.as_ref().and_then(|s| s.signal()).filter(|s| *s != libc::SIGKILL);
    match (st1, sig) {
      (Some(s), _) if s.success() && crash.is_some() => {
        read_result(&out1, &mut m);
        m.viols.push((k, "crash".into(), format!("case {k}: the process died with signal {} (stack overflow, abort or memory error); not on a second run", crash.unwrap())));
      },
      (Some(s), _) if s.success() => {
        read_result(&out1, &mut m);
        m.inconclusive.push(format!(
          "shard {shard}: case {k} {} but passes on its own",
          if st.is_none() { "made no progress".into() } else { format!("ended with {st:?}") }
        ));
      },
      (_, Some(libc::SIGXCPU)) => m.viols.push((
        k,
        "nontermination".into(),
        format!("case {k} did not finish within {cpu} s of CPU time (cases normally take milliseconds)"),
      )),
      (_, Some(s)) if s != libc::SIGKILL => {
        m.viols.push((k, "crash".into(), format!("case {k}: the process died with signal {s} (stack overflow, abort or memory error), reproducibly")))
      },
      (None, _) if idle && idle1 => m.viols.push((k, "deadlock".into(), format!("case {k}: the process waits forever without computing (twice)"))),
      (s, _) => m.inconclusive.push(format!("shard {shard}: case {k} undecided ({s:?}, idle={idle1})")),
    }
    if a.only.is_some() || m.viols.len() >= 25 {
      return m;
    }
    from = k + 1;
  }
  m
}

fn supervise(a: &Args, spec: &Spec) -> i32 {
  let t0 = Instant::now();
  let dir = a.scratch.join(format!("monitor-{}-{}", a.prop, std::process::id()));
  std::fs::create_dir_all(&dir).expect("scratch");
  let shards = if a.only.is_some() { 1 } else { a.workers.unwrap_or(spec.workers) };
  let a2 = Args { scratch: dir.clone(), prop: a.prop.clone(), tier: a.tier.clone(), evidence: PathBuf::new(), replay_dir: PathBuf::new(), known: PathBuf::new(), out: PathBuf::new(), worker: None, ..*a };
  let parts: Vec<Merged> = std::thread::scope(|s| {
    let hs: Vec<_> = (0..shards)
      .map(|i| {
        let a2 = &a2;
        let dir = &dir;
        s.spawn(move || run_shard(a2, spec, i, shards, dir))
      })
      .collect();
    hs.into_iter().map(|h| h.join().expect("shard")).collect()
  });
  let mut m = Merged { cases: 0, evaluations: 0, distinct: HashSet::new(), counters: BTreeMap::new(), samples: vec![], viols: vec![], inconclusive: vec![] };
  for p in parts {
    m.cases += p.cases;
    m.evaluations += p.evaluations;
    m.distinct.extend(p.distinct);
    for (k, v) in p.counters {
      *m.counters.entry(k).or_insert(0) += v;
    }
    if m.samples.len() < 6 {
      m.samples.extend(p.samples);
    }
    m.viols.extend(p.viols);
    m.inconclusive.extend(p.inconclusive);
  }
  m.samples.truncate(6);
  let _ = std::fs::remove_dir_all(&dir);
  m.viols.sort();

  // known findings: suppress exactly the listed (property, key) signatures
  let known: Value = std::fs::read(&a.known).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(json!({}));
  let mut listed: BTreeMap<String, String> = BTreeMap::new();
  for f in known["findings"].as_array().into_iter().flatten() {
    if f["property"] == a.prop.as_str() {
      listed.insert(f["key"].as_str().unwrap_or("").into(), f["what"].as_str().unwrap_or("").into());
    }
  }
  let mut fresh = Vec::new();
  let mut hit: BTreeMap<String, u64> = BTreeMap::new();
  for v in m.viols {
    if listed.contains_key(&v.1) {
      *hit.entry(v.1.clone()).or_insert(0) += 1;
    } else {
      fresh.push(v);
    }
  }
  for k in hit.keys() {
    println!("KNOWN-FINDING: property={} {}", a.prop, listed[k]);
  }
  let wall = t0.elapsed().as_secs_f64();
  let enough = a.only.is_some() || (m.distinct.len() as u64) >= spec.min_distinct;
  if !a.evidence.as_os_str().is_empty() {
    let ev = json!({
      "property": a.prop,
      "tier": a.tier,
      "seed": a.seed,
      "level": "exploration",
      "coverage": {
        "evaluations": m.evaluations,
        "distinct_nontrivial": m.distinct.len(),
        "rule": spec.rule,
        "samples": m.samples,
        "cases": m.cases,
        "observed_events": m.counters,
        "worker_processes": shards,
        "inconclusive": m.inconclusive,
        "known_findings_hit": hit,
      },
      "assumptions": spec.assumptions,
      "wall_s": (wall * 1000.0).round() / 1000.0,
      "violations": fresh.len(),
    });
    if let Some(p) = a.evidence.parent() {
      let _ = std::fs::create_dir_all(p);
    }
    std::fs::write(&a.evidence, serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("evidence");
  }
  println!(
    "{}: {} cases, {} evaluations, {} distinct non-trivial, {:.1} s, observed {:?}",
    a.prop, m.cases, m.evaluations, m.distinct.len(), wall, m.counters
  );
  for i in m.inconclusive.iter().take(5) {
    println!("{}: inconclusive: {}", a.prop, clip(i, 400));
  }
  if let Some((case, key, detail)) = fresh.first() {
    let _ = std::fs::create_dir_all(&a.replay_dir);
    let path = a.replay_dir.join(format!("{}-{}-{}.json", a.prop, a.seed, case));
    let r = json!({
      "property": a.prop, "tier": a.tier, "seed": a.seed, "case": case, "key": key, "detail": detail,
      "rerun": format!("bash /verif/check.sh {} {} --only {}", a.prop, a.tier, case),
      "others": fresh.iter().skip(1).take(10).map(|v| json!({"case": v.0, "key": v.1, "detail": clip(&v.2, 300)})).collect::<Vec<_>>(),
    });
    std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap() + "\n").expect("replay");
    println!("{}", clip(detail, 1500));
    println!("VIOLATION property={} replay={}", a.prop, path.display());
    return 1;
  }
  if !m.inconclusive.is_empty() {
    println!("{}: no verdict ({} inconclusive)", a.prop, m.inconclusive.len());
    return 3;
  }
  if !enough {
    println!("{}: no verdict: only {} distinct non-trivial inputs observed (need {})", a.prop, m.distinct.len(), spec.min_distinct);
    return 3;
  }
  0
}
