//! Case runner, shrinker, replay files, worker processes, evidence.
use crate::tape::{Rng, Src};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub cases: u64,
    pub labels: BTreeMap<String, u64>,
    pub seen: HashSet<u64>,
    pub samples: Vec<String>,
}
impl Stats {
    /// counts a non-trivial evaluation; `h` identifies it, `text` renders it
    pub fn hit(&mut self, label: &str, h: u64, text: impl FnOnce() -> String) {
        let n = match self.labels.get_mut(label) {
            Some(n) => {
                *n += 1;
                *n
            }
            None => {
                self.labels.insert(label.into(), 1);
                1
            }
        };
        if self.seen.len() < 4_000_000 {
            self.seen.insert(h);
        }
        if n <= 1 && self.samples.len() < 24 {
            let mut t = text();
            if t.len() > 700 {
                let mut c = 700;
                while !t.is_char_boundary(c) {
                    c -= 1;
                }
                t.truncate(c);
            }
            self.samples.push(format!("[{label}] {t}"));
        }
    }
    pub fn count(&mut self, label: &str) {
        *self.labels.entry(label.into()).or_default() += 1;
    }
}

pub fn hash<T: Hash>(t: &T) -> u64 {
    // fixed-key hasher: identical in every process
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub struct Trace {
    pub on: bool,
    pub lines: Vec<String>,
}
impl Trace {
    pub fn add(&mut self, f: impl FnOnce() -> String) {
        if self.on {
            self.lines.push(f());
        }
    }
}

pub type Case = fn(&mut Src, &mut Stats, &mut Trace) -> Result<(), String>;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub case: Case,
}

fn run_one(p: &Prop, src: &mut Src, st: &mut Stats, tr: &mut Trace) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| (p.case)(src, st, tr))) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("state left by the program could not be interpreted (panic while observing: {m})"))
        }
    }
}

fn attempt(p: &Prop, tape: Vec<u64>) -> Option<(Vec<u64>, Vec<(usize, usize)>, String)> {
    let mut src = Src::replay(tape);
    let mut st = Stats::default();
    let mut tr = Trace { on: false, lines: vec![] };
    match run_one(p, &mut src, &mut st, &mut tr) {
        Ok(()) => None,
        Err(m) => Some((src.used(), src.spans.clone(), m)),
    }
}

fn kind_of(m: &str) -> &str {
    m.split(':').next().unwrap_or("")
}

pub fn shrink(p: &Prop, tape: Vec<u64>, budget: Duration) -> (Vec<u64>, String) {
    let t0 = Instant::now();
    let Some((mut best, mut spans, mut msg)) = attempt(p, tape.clone()) else { return (tape, "failure did not reproduce".into()) };
    let want = kind_of(&msg).to_string();
    let mut evals = 0;
    let mut try_ = |c: Vec<u64>, evals: &mut u32| {
        *evals += 1;
        attempt(p, c).filter(|x| kind_of(&x.2) == want)
    };
    let out = |e: u32| t0.elapsed() > budget || e > 4000;
    // 1. delete runs of operations
    let mut chunk = (spans.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut any = false;
        while i < spans.len() && !out(evals) {
            let j = (i + chunk).min(spans.len());
            let (a, b) = (spans[i].0, spans[j - 1].1);
            let mut c = best.clone();
            let b = b.min(c.len());
            if a < b {
                c.drain(a..b);
                if let Some(x) = try_(c, &mut evals) {
                    if x.0.len() < best.len() {
                        best = x.0;
                        spans = x.1;
                        msg = x.2;
                        any = true;
                        continue;
                    }
                }
            }
            i += chunk;
        }
        if out(evals) {
            break;
        }
        if chunk == 1 {
            if !any {
                break;
            }
        } else {
            chunk /= 2;
        }
    }
    // 2. make single draws smaller
    for _round in 0..2 {
        let mut any = false;
        let mut i = 0;
        while i < best.len() && !out(evals) {
            let v = best[i];
            for n in [0, 1, v / 2, v.wrapping_sub(1)] {
                if n >= best[i] {
                    continue;
                }
                let mut c = best.clone();
                c[i] = n;
                if let Some(x) = try_(c, &mut evals) {
                    if x.0.len() <= best.len() {
                        best = x.0;
                        msg = x.2;
                        any = true;
                        break;
                    }
                }
                if i >= best.len() {
                    break;
                }
            }
            i += 1;
        }
        if !any || out(evals) {
            break;
        }
    }
    (best, msg)
}

pub fn render(p: &Prop, tape: &[u64]) -> (Option<String>, Vec<String>) {
    let mut src = Src::replay(tape.to_vec());
    let mut st = Stats::default();
    let mut tr = Trace { on: true, lines: vec![] };
    let r = run_one(p, &mut src, &mut st, &mut tr);
    (r.err(), tr.lines)
}

fn write_replay(path: &str, id: &str, seed: u64, msg: &str, tape: &[u64], lines: &[String]) {
    let mut f = std::fs::File::create(path).expect("replay file");
    let _ = writeln!(f, "property {id}\nseed {seed}\n# {}", msg.replace('\n', " "));
    let _ = writeln!(f, "tape {}", tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    for l in lines {
        let _ = writeln!(f, "# {}", l.replace('\n', " "));
    }
}

pub fn worker(p: &Prop, seed: u64, w: u64, millis: u64, dir: &str) {
    let t0 = Instant::now();
    let budget = Duration::from_millis(millis);
    let mut st = Stats::default();
    let mut n = 0u64;
    let stop = format!("{dir}/stop");
    let prog = std::fs::File::create(format!("{dir}/prog.{w}")).unwrap();
    use std::os::unix::fs::FileExt;
    let mut fail = None;
    while t0.elapsed() < budget {
        if n % 4 == 0 && std::path::Path::new(&stop).exists() {
            break;
        }
        let stream = (w << 40) | n;
        let _ = prog.write_at(&stream.to_le_bytes(), 0);
        let mut src = Src::random(Rng::new(seed, stream));
        let mut tr = Trace { on: false, lines: vec![] };
        st.cases += 1;
        if let Err(m) = run_one(p, &mut src, &mut st, &mut tr) {
            let _ = std::fs::write(&stop, b"1");
            fail = Some((src.used(), m));
            break;
        }
        n += 1;
    }
    let mut o = String::new();
    o += &format!("cases {}\nevals {}\n", st.cases, st.evals);
    for (k, v) in &st.labels {
        o += &format!("label {v} {k}\n");
    }
    for s in &st.samples {
        o += &format!("sample {}\n", s.replace('\n', " "));
    }
    let hs: Vec<u8> = st.seen.iter().flat_map(|x| x.to_le_bytes()).collect();
    let _ = std::fs::write(format!("{dir}/hash.{w}"), hs);
    if let Some((tape, m0)) = fail {
        // first record the raw failure, then the shrunk one
        let path = format!("{dir}/fail.{w}");
        write_replay(&path, p.id, seed, &m0, &tape, &[]);
        let (t, _) = shrink(p, tape.clone(), Duration::from_secs(20));
        let (m, lines) = render(p, &t);
        match m {
            Some(m) => write_replay(&path, p.id, seed, &m, &t, &lines),
            None => write_replay(&path, p.id, seed, &format!("{m0} (not reproduced on replay)"), &tape, &lines),
        }
        o += "failed\n";
    }
    let tmp = format!("{dir}/out.{w}.tmp");
    std::fs::write(&tmp, o).unwrap();
    std::fs::rename(&tmp, format!("{dir}/out.{w}")).unwrap();
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

pub fn known_findings(root: &str, id: &str) -> Vec<(String, String)> {
    // lines "finding: property=<id> match=<text>|<description>"; "fixed:" lines suppress nothing
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(format!("{root}/known_findings.txt")) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix(&format!("finding: property={id} match=")) {
                if let Some((m, d)) = r.split_once('|') {
                    v.push((m.trim().to_string(), d.trim().to_string()));
                }
            }
        }
    }
    v
}

pub fn check(p: &Prop, root: &str) -> i32 {
    let t0 = Instant::now();
    let tier = std::env::var("VERIF_TIER").ok().filter(|t| t == "thorough").unwrap_or("quick".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: u64 = std::env::var("PHX_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 1200 } else { 25 });
    let nw: u64 = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8).clamp(2, 16);
    let dir = format!("{root}/target/run/{}.{}", p.id, std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut kids: Vec<_> = (0..nw)
        .map(|w| {
            Command::new(&exe)
                .args(["worker", p.id, &seed.to_string(), &w.to_string(), &(secs * 1000).to_string(), &dir])
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .expect("spawn worker")
        })
        .collect();
    let limit = Duration::from_secs(secs + 150);
    let mut status: Vec<Option<bool>> = vec![None; nw as usize]; // Some(true) = finished normally
    loop {
        let mut open = 0;
        for (i, k) in kids.iter_mut().enumerate() {
            if status[i].is_none() {
                match k.try_wait() {
                    Ok(Some(s)) => {
                        let okk = s.success() && std::path::Path::new(&format!("{dir}/out.{i}")).exists();
                        status[i] = Some(okk);
                        if !okk {
                            let _ = std::fs::write(format!("{dir}/stop"), b"1");
                        }
                    }
                    _ => open += 1,
                }
            }
        }
        if open == 0 {
            break;
        }
        if t0.elapsed() > limit {
            for (i, k) in kids.iter_mut().enumerate() {
                if status[i].is_none() {
                    let _ = k.kill();
                    let _ = k.wait();
                }
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(40));
    }
    let (mut cases, mut evals) = (0u64, 0u64);
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: BTreeMap<String, String> = BTreeMap::new();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut fails: Vec<(usize, String, String)> = vec![]; // tape length, message, text
    std::fs::create_dir_all(format!("{root}/replays")).unwrap();
    for w in 0..nw {
        if let Ok(t) = std::fs::read_to_string(format!("{dir}/out.{w}")) {
            for l in t.lines() {
                if let Some(x) = l.strip_prefix("cases ") {
                    cases += x.parse::<u64>().unwrap_or(0);
                } else if let Some(x) = l.strip_prefix("evals ") {
                    evals += x.parse::<u64>().unwrap_or(0);
                } else if let Some(x) = l.strip_prefix("label ") {
                    if let Some((n, k)) = x.split_once(' ') {
                        *labels.entry(k.into()).or_default() += n.parse::<u64>().unwrap_or(0);
                    }
                } else if let Some(x) = l.strip_prefix("sample ") {
                    let k = x.split(']').next().unwrap_or("").to_string();
                    samples.entry(k).or_insert(x.to_string());
                }
            }
        }
        if let Ok(h) = std::fs::read(format!("{dir}/hash.{w}")) {
            for c in h.chunks(8) {
                if c.len() == 8 {
                    seen.insert(u64::from_le_bytes(c.try_into().unwrap()));
                }
            }
        }
        if let Ok(t) = std::fs::read_to_string(format!("{dir}/fail.{w}")) {
            let msg = t.lines().nth(2).unwrap_or("").trim_start_matches("# ").to_string();
            let n = t.lines().find(|l| l.starts_with("tape ")).map(|l| l.split(' ').count()).unwrap_or(0);
            fails.push((n, msg, t));
        } else if status[w as usize] != Some(true) {
            let s = std::fs::read(format!("{dir}/prog.{w}")).ok().filter(|b| b.len() == 8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).unwrap_or(0);
            let what = if status[w as usize].is_none() { "did not terminate" } else { "crashed the process" };
            let msg = format!("CRASH: the program {what} on a generated case");
            fails.push((usize::MAX, msg.clone(), format!("property {}\nseed {seed}\n# {msg}\nstream {s}\n", p.id)));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    fails.sort_by(|a, b| a.0.cmp(&b.0));
    let known = known_findings(root, p.id);
    let mut shown: HashSet<String> = HashSet::new();
    let mut viol = None;
    for f in &fails {
        if let Some((_, d)) = known.iter().find(|(m, _)| f.1.contains(m.as_str())) {
            if shown.insert(d.clone()) {
                println!("KNOWN-FINDING: property={} {d}", p.id);
            }
        } else if viol.is_none() {
            viol = Some(f);
        }
    }
    let mut j = String::new();
    j += &format!("{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n", jstr(p.id), jstr(&tier));
    j += &format!(" \"coverage\": {{\n  \"evaluations\": {evals},\n  \"distinct_nontrivial\": {},\n  \"histories\": {cases},\n  \"rule\": {},\n", seen.len(), jstr(p.rule));
    j += &format!("  \"labels\": {{{}}},\n", labels.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect::<Vec<_>>().join(", "));
    let ss: Vec<String> = samples.values().take(24).map(|s| format!("   {}", jstr(s))).collect();
    j += &format!("  \"samples\": [\n{}\n  ]\n }},\n", ss.join(",\n"));
    j += " \"assumptions\": [\"the harness' runtime stand-in executes the real program and the real spl-token processor with the ownership, privilege, lamport and rollback rules of the Solana runtime; compute limits are not modelled\"],\n";
    j += &format!(" \"wall_s\": {:.1},\n \"violations\": {}\n}}\n", t0.elapsed().as_secs_f64(), viol.is_some() as u32);
    std::fs::create_dir_all(format!("{root}/evidence")).unwrap();
    std::fs::write(format!("{root}/evidence/{}.json", p.id), j).unwrap();
    println!("{}: {cases} histories, {evals} evaluations, {} distinct non-trivial, {:.1} s", p.id, seen.len(), t0.elapsed().as_secs_f64());
    match viol {
        None => 0,
        Some((_, msg, text)) => {
            let path = format!("{root}/replays/{}.{seed}.replay", p.id);
            std::fs::write(&path, text).unwrap();
            println!("{msg}");
            println!("VIOLATION property={} replay={path}", p.id);
            1
        }
    }
}

pub fn replay(props: &[Prop], file: &str) -> i32 {
    let t = std::fs::read_to_string(file).expect("replay file");
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).map(|s| s.trim().to_string());
    let id = get("property ").expect("property line");
    let p = props.iter().find(|p| p.id == id).expect("unknown property");
    let (err, lines) = if let Some(tp) = get("tape ") {
        let tape: Vec<u64> = tp.split_whitespace().map(|x| x.parse().unwrap()).collect();
        render(p, &tape)
    } else {
        let seed = get("seed ").unwrap().parse().unwrap();
        let stream = get("stream ").unwrap().parse().unwrap();
        let mut src = Src::random(Rng::new(seed, stream));
        let mut tr = Trace { on: true, lines: vec![] };
        let r = run_one(p, &mut src, &mut Stats::default(), &mut tr);
        (r.err(), tr.lines)
    };
    for l in lines {
        println!("{l}");
    }
    match err {
        Some(m) => {
            println!("{m}\nVIOLATION property={id} replay={file}");
            1
        }
        None => {
            println!("the recorded case does not violate {id} on the current tree");
            0
        }
    }
}
