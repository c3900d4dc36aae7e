//! Runs contract functions in parallel, discharges their obligations with external solvers, writes the result file.
use crate::engine::Vc;
use crate::sym::HarnessResult;
use crate::Harness;
use std::collections::{BTreeMap, VecDeque};
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Verdict {
    pub harness: String,
    pub label: String,
    pub path: usize,
    pub trail: String,
    pub choices: Vec<(String, usize)>,
    pub status: String,
    pub backend: String,
    pub secs: f64,
    pub model: Vec<(String, String)>,
    pub log: String,
}

fn run_solver(argv: &[&str], script: &str, limit: f64) -> (String, f64) {
    let t = Instant::now();
    let r = Command::new(argv[0])
        .args(&argv[1..])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn();
    let mut ch = match r {
        Ok(c) => c,
        Err(e) => return (format!("error {}", e), 0.0),
    };
    let mut inp = ch.stdin.take().unwrap();
    let s = script.to_string();
    let wt = std::thread::spawn(move || {
        let _ = inp.write_all(s.as_bytes());
    });
    let mut outp = ch.stdout.take().unwrap();
    let rt = std::thread::spawn(move || {
        let mut o = String::new();
        let _ = outp.read_to_string(&mut o);
        o
    });
    let end = Instant::now() + Duration::from_secs_f64(limit + 2.0);
    let mut nap = 1;
    loop {
        match ch.try_wait() {
            Ok(Some(_)) => break,
            _ => {
                if Instant::now() > end {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    break;
                }
                std::thread::sleep(Duration::from_millis(nap));
                nap = (nap * 2).min(20);
            }
        }
    }
    let _ = wt.join();
    let o = rt.join().unwrap_or_default();
    (o, t.elapsed().as_secs_f64())
}
fn answer(o: &str) -> &'static str {
    for l in o.lines() {
        match l.trim() {
            "unsat" => return "unsat",
            "sat" => return "sat",
            x if x.starts_with("(error") => return "unknown",
            _ => {}
        }
    }
    "unknown"
}
fn parse_values(o: &str) -> Vec<(String, String)> {
    // ((|a| 1.0) (|b| (- 2.5))...)
    let mut r = vec![];
    if let Some(i) = o.find("((") {
        let t: Vec<char> = o[i + 1..].chars().collect();
        let mut k = 0;
        while k < t.len() {
            if t[k] == '(' {
                let mut d = 0;
                let st = k;
                let mut inbar = false;
                while k < t.len() {
                    if t[k] == '|' {
                        inbar = !inbar;
                    }
                    if !inbar {
                        if t[k] == '(' {
                            d += 1;
                        }
                        if t[k] == ')' {
                            d -= 1;
                            if d == 0 {
                                break;
                            }
                        }
                    }
                    k += 1;
                }
                let e: String = t[st + 1..k].iter().collect();
                let (n, v) = if e.starts_with('|') {
                    let j = e[1..].find('|').unwrap_or(0) + 1;
                    (e[1..j].to_string(), e[j + 1..].trim().to_string())
                } else {
                    match e.find(' ') {
                        Some(j) => (e[..j].to_string(), e[j..].trim().to_string()),
                        None => (e.clone(), String::new()),
                    }
                };
                r.push((n.strip_prefix("v:").map(|x| x.to_string()).unwrap_or(n), v));
            }
            k += 1;
        }
    }
    r
}
fn scale() -> f64 {
    std::env::var("SOLVE_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0)
}
fn z3(script: &str, limit: f64, vars: Option<&[String]>, prog: &str) -> (String, f64) {
    let mut s = format!("(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 12)\n{}\n(check-sat)\n", script);
    if let Some(v) = vars {
        if !v.is_empty() {
            s += "(get-value (";
            for n in v {
                s += &format!(" |v:{}|", n);
            }
            s += "))\n";
        }
    }
    let t = format!("-T:{}", limit.ceil() as i64);
    run_solver(&[prog, "-in", "-smt2", &t, "-memory:3000"], &s, limit)
}
/// A solver process kept for many queries (reset between them).
struct Server {
    ch: std::process::Child,
    inp: std::process::ChildStdin,
    rx: std::sync::mpsc::Receiver<String>,
    used: usize,
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.ch.kill();
        let _ = self.ch.wait();
    }
}
thread_local! { static SERVER: std::cell::RefCell<Option<Server>> = std::cell::RefCell::new(None); }
fn start() -> Option<Server> {
    let mut ch = Command::new("z3").args(["-in", "-smt2", "-memory:3000"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    let inp = ch.stdin.take()?;
    let out = ch.stdout.take()?;
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        use std::io::BufRead;
        for l in std::io::BufReader::new(out).lines() {
            match l {
                Ok(l) => {
                    if tx.send(l).is_err() {
                        break;
                    }
                }
                Err(_) => break,
            }
        }
    });
    Some(Server { ch, inp, rx, used: 0 })
}
/// Decides one script in the kept process; anything but a clean answer is "unknown" and ends that process.
fn z3_kept(script: &str, limit: f64) -> (String, f64) {
    let t = Instant::now();
    SERVER.with(|c| {
        let mut c = c.borrow_mut();
        if c.as_ref().map_or(true, |s| s.used >= 400) {
            *c = start();
        }
        let mut ans = String::from("unknown");
        let mut ok = false;
        if let Some(s) = c.as_mut() {
            s.used += 1;
            let q = format!("(reset)\n(set-option :timeout {})\n{}\n(check-sat)\n(echo \"--end--\")\n", (limit * 1000.0) as i64, script);
            if s.inp.write_all(q.as_bytes()).and_then(|_| s.inp.flush()).is_ok() {
                let end = t + Duration::from_secs_f64(limit + 1.0);
                let mut bad = false;
                loop {
                    let left = end.saturating_duration_since(Instant::now());
                    match s.rx.recv_timeout(left) {
                        Ok(l) => match l.trim() {
                            "--end--" => {
                                ok = !bad;
                                break;
                            }
                            "sat" => ans = "sat".into(),
                            "unsat" => ans = "unsat".into(),
                            x if x.starts_with("(error") => bad = true,
                            _ => {}
                        },
                        Err(_) => break,
                    }
                }
            }
        }
        if !ok {
            *c = None;
            ans = "unknown".into();
        }
        (ans, t.elapsed().as_secs_f64())
    })
}
fn cvc5(script: &str, limit: f64) -> (String, f64) {
    let s = format!("(set-logic ALL)\n{}\n(check-sat)\n", script);
    let t = format!("--tlimit={}", (limit * 1000.0) as i64);
    run_solver(&["cvc5", "--lang=smt2", "--nl-cov", &t, "-"], &s, limit)
}

pub fn solve(vc: &Vc) -> Verdict {
    let t0 = Instant::now();
    let mut v = Verdict {
        harness: vc.harness.clone(),
        label: vc.label.clone(),
        path: vc.path,
        trail: vc.trail.clone(),
        choices: vc.choices.clone(),
        status: "unknown".into(),
        backend: String::new(),
        secs: 0.0,
        model: vec![],
        log: String::new(),
    };
    let k = scale();
    let get = |n: &str| vc.scripts.iter().find(|s| s.0 == n).map(|s| s.1.as_str());
    let done = |v: &mut Verdict, st: &str, b: &str| {
        v.status = st.into();
        v.backend = b.into();
        v.secs = t0.elapsed().as_secs_f64();
    };
    if let Some(s) = get("z3-linear") {
        let (o, t) = z3_kept(s, 4.0 * k);
        v.log += &format!("z3-linear: {} {:.2}s\n", answer(&o), t);
        if answer(&o) == "unsat" {
            done(&mut v, "proved", "z3-linear");
            return v;
        }
    }
    let dag = get("z3-dag").unwrap();
    let poly = get("z3-poly");
    let mut sat_poly: Option<String> = None;
    for round in 0..2 {
        let lim = if round == 0 { 3.0 * k } else { 20.0 * k };
        if let Some(p) = poly {
            if sat_poly.is_none() {
                let (o, t) = if round == 0 { z3_kept(p, lim) } else { z3(p, lim, None, "z3") };
                v.log += &format!("z3-poly: {} {:.2}s\n", answer(&o), t);
                match answer(&o) {
                    "unsat" => {
                        done(&mut v, "proved", "z3-poly");
                        return v;
                    }
                    "sat" => sat_poly = Some(o),
                    _ => {}
                }
            }
        }
        let (o, t) = z3(dag, lim, Some(&vc.vars), "z3");
        v.log += &format!("z3-dag: {} {:.2}s\n", answer(&o), t);
        match answer(&o) {
            "unsat" => {
                done(&mut v, "proved", "z3-dag");
                return v;
            }
            "sat" => {
                v.model = parse_values(&o);
                done(&mut v, "refuted", "z3-dag");
                return v;
            }
            _ => {}
        }
        let (o, t) = z3(dag, lim, Some(&vc.vars), "z3-new");
        v.log += &format!("z3-new-dag: {} {:.2}s\n", answer(&o), t);
        match answer(&o) {
            "unsat" => {
                done(&mut v, "proved", "z3new-dag");
                return v;
            }
            "sat" => {
                v.model = parse_values(&o);
                done(&mut v, "refuted", "z3new-dag");
                return v;
            }
            _ => {}
        }
        let (o, t) = cvc5(poly.unwrap_or(dag), lim);
        v.log += &format!("cvc5: {} {:.2}s\n", answer(&o), t);
        if answer(&o) == "unsat" {
            done(&mut v, "proved", "cvc5");
            return v;
        }
    }
    v.secs = t0.elapsed().as_secs_f64();
    v
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Shared {
    q: Mutex<(VecDeque<Vc>, usize)>,
    cv: Condvar,
    out: Mutex<Vec<Verdict>>,
}

pub fn run(hs: &[Harness], explore: fn(&str, fn()) -> HarnessResult, out: Option<String>) {
    let t0 = Instant::now();
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
    // contracts named serial_* touch process-wide state and are explored alone, after the others
    let mut order: Vec<Harness> = hs.to_vec();
    order.sort_by_key(|h| h.0.starts_with("serial_"));
    let alone: Arc<std::sync::RwLock<()>> = Arc::new(std::sync::RwLock::new(()));
    let work: Arc<Mutex<VecDeque<Harness>>> = Arc::new(Mutex::new(order.into_iter().collect()));
    let results: Arc<Mutex<Vec<HarnessResult>>> = Arc::new(Mutex::new(vec![]));
    let sh = Arc::new(Shared { q: Mutex::new((VecDeque::new(), hs.len())), cv: Condvar::new(), out: Mutex::new(vec![]) });
    let mut th = vec![];
    for _ in 0..n.min(hs.len().max(1)) {
        let (work, results, sh, alone) = (work.clone(), results.clone(), sh.clone(), alone.clone());
        th.push(
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || loop {
                    let h = match work.lock().unwrap().pop_front() {
                        Some(h) => h,
                        None => break,
                    };
                    let mut r = if h.0.starts_with("serial_") {
                        let _g = alone.write().unwrap();
                        explore(h.0, h.1)
                    } else {
                        let _g = alone.read().unwrap();
                        explore(h.0, h.1)
                    };
                    let vcs = std::mem::take(&mut r.vcs);
                    {
                        let mut q = sh.q.lock().unwrap();
                        q.0.extend(vcs);
                        q.1 -= 1;
                        sh.cv.notify_all();
                    }
                    results.lock().unwrap().push(r);
                })
                .unwrap(),
        );
    }
    let budget: f64 = std::env::var("BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(600.0);
    let failed_labels: Arc<Mutex<BTreeMap<String, usize>>> = Arc::new(Mutex::new(BTreeMap::new()));
    for _ in 0..n {
        let sh = sh.clone();
        let fl = failed_labels.clone();
        th.push(std::thread::spawn(move || loop {
            let vc = {
                let mut q = sh.q.lock().unwrap();
                loop {
                    if let Some(v) = q.0.pop_front() {
                        break Some(v);
                    }
                    if q.1 == 0 {
                        break None;
                    }
                    q = sh.cv.wait(q).unwrap();
                }
            };
            let vc = match vc {
                Some(v) => v,
                None => break,
            };
            let key = format!("{}/{}", vc.harness, vc.label);
            // after a few failures of one obligation the verdict is settled
            let tot: usize = fl.lock().unwrap().iter().filter(|(k, _)| !k.starts_with("known_")).map(|(_, n)| *n).sum();
            let late = t0.elapsed().as_secs_f64() > budget;
            let v = if late || fl.lock().unwrap().get(&key).copied().unwrap_or(0) >= 3 || tot >= 24 {
                Verdict {
                    harness: vc.harness.clone(),
                    label: vc.label.clone(),
                    path: vc.path,
                    trail: vc.trail.clone(),
                    choices: vc.choices.clone(),
                    status: if late { "timeout".into() } else { "skipped".into() },
                    backend: String::new(),
                    secs: 0.0,
                    model: vec![],
                    log: String::new(),
                }
            } else {
                solve(&vc)
            };
            if v.status == "refuted" || v.status == "unknown" {
                *fl.lock().unwrap().entry(key).or_insert(0) += 1;
                if let Ok(d) = std::env::var("VC_DUMP") {
                    let _ = std::fs::create_dir_all(&d);
                    for (n, s) in &vc.scripts {
                        let _ = std::fs::write(format!("{}/{}-{}-{}.smt2", d, vc.harness.replace(':', "_"), vc.key % 10000, n), format!("; {}\n{}(check-sat)\n", vc.label, s));
                    }
                }
            }
            sh.out.lock().unwrap().push(v);
        }));
    }
    for t in th {
        let _ = t.join();
    }
    let mut results = results.lock().unwrap();
    results.sort_by(|a, b| a.name.cmp(&b.name));
    let mut verdicts = sh.out.lock().unwrap();
    verdicts.sort_by(|a, b| (&a.harness, &a.label, a.path).cmp(&(&b.harness, &b.label, b.path)));
    // reachability: at least one path of every obligation must be satisfiable
    let mut covers: Vec<(String, String, &'static str)> = vec![];
    {
        let mut jobs = vec![];
        for r in results.iter() {
            for (l, s) in r.cover.iter() {
                if l.starts_with("no-panic") || l == "divisor-nonzero" || l == "sqrt-domain" {
                    continue;
                }
                jobs.push((r.name.clone(), l.clone(), s.clone()));
            }
        }
        // identical path conditions are checked once
        let memo: Arc<Mutex<BTreeMap<u64, &'static str>>> = Arc::new(Mutex::new(BTreeMap::new()));
        let jobs = Arc::new(Mutex::new(jobs));
        let res: Arc<Mutex<Vec<(String, String, &'static str)>>> = Arc::new(Mutex::new(vec![]));
        let mut th = vec![];
        for _ in 0..n {
            let (jobs, res, memo) = (jobs.clone(), res.clone(), memo.clone());
            th.push(std::thread::spawn(move || loop {
                let j = match jobs.lock().unwrap().pop() {
                    Some(j) => j,
                    None => break,
                };
                let mut a = "unsat";
                let mut unknowns = 0;
                for (ci, s) in j.2.iter().enumerate() {
                    if let Ok(d) = std::env::var("COVER_DUMP") {
                        let _ = std::fs::write(format!("{}/{}-{}-{}.smt2", d, j.0, j.1.replace(' ', "_").replace('/', "_"), ci), s);
                    }
                    use std::hash::{Hash, Hasher};
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    s.hash(&mut h);
                    let key = h.finish();
                    let m = memo.lock().unwrap().get(&key).copied();
                    let x = match m {
                        _ if s.is_empty() => "unknown",
                        Some(x) => x,
                        None => {
                            let (o, _) = z3(s, 2.0, None, "z3");
                            let x = answer(&o);
                            memo.lock().unwrap().insert(key, x);
                            x
                        }
                    };
                    if x == "sat" {
                        a = "sat";
                        break;
                    }
                    if x == "unknown" {
                        a = "unknown";
                        unknowns += 1;
                        if unknowns == 2 {
                            break;
                        }
                    }
                }
                res.lock().unwrap().push((j.0, j.1, a));
            }));
        }
        for t in th {
            let _ = t.join();
        }
        covers.append(&mut res.lock().unwrap());
        covers.sort();
    }
    // ---- report
    let mut o = String::from("{\n\"harnesses\": [\n");
    for (i, r) in results.iter().enumerate() {
        o += &format!(
            "{{\"name\":{},\"paths\":{},\"aborted\":{},\"forks\":{},\"div_assumed\":{},\"explore_s\":{:.3},\"oracle_calls\":{},\"error\":{},\"labels\":{{",
            esc(&r.name),
            r.paths,
            r.aborted,
            r.forks,
            r.div_assumed,
            r.explore_s,
            r.oracle_calls,
            r.error.as_ref().map(|e| esc(e)).unwrap_or("null".into())
        );
        let mut first = true;
        for (l, s) in r.labels.iter() {
            if !first {
                o += ",";
            }
            first = false;
            o += &format!(
                "{}:{{\"count\":{},\"folded\":{},\"ring\":{},\"sign\":{},\"queued\":{},\"dup\":{}}}",
                esc(l),
                s.count,
                s.folded,
                s.ring,
                s.sign,
                s.queued,
                s.dup
            );
        }
        o += "}}";
        if i + 1 < results.len() {
            o += ",\n";
        }
    }
    o += "],\n\"vcs\": [\n";
    for (i, v) in verdicts.iter().enumerate() {
        o += &format!(
            "{{\"harness\":{},\"label\":{},\"path\":{},\"trail\":{},\"status\":{},\"backend\":{},\"secs\":{:.3},\"log\":{},\"choices\":[{}],\"model\":[{}]}}",
            esc(&v.harness),
            esc(&v.label),
            v.path,
            esc(&v.trail),
            esc(&v.status),
            esc(&v.backend),
            v.secs,
            esc(&v.log),
            v.choices.iter().map(|(a, b)| format!("[{},{}]", esc(a), b)).collect::<Vec<_>>().join(","),
            v.model.iter().map(|(a, b)| format!("[{},{}]", esc(a), esc(b))).collect::<Vec<_>>().join(",")
        );
        if i + 1 < verdicts.len() {
            o += ",\n";
        }
    }
    o += "],\n\"cover\": [";
    o += &covers.iter().map(|(h, l, a)| format!("[{},{},{}]", esc(h), esc(l), esc(a))).collect::<Vec<_>>().join(",\n");
    o += "],\n\"functions\": [";
    o += &crate::sym::reached_list().iter().map(|f| esc(f)).collect::<Vec<_>>().join(",");
    o += &format!("],\n\"wall_s\": {:.3}\n}}\n", t0.elapsed().as_secs_f64());
    match out {
        Some(p) => std::fs::write(p, o).unwrap(),
        None => println!("{}", o),
    }
}
