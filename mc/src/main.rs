mod broad;
mod themes;
mod drivers;
mod engine;
mod faults;
mod fsck;
mod image;
mod mem;
mod model;
mod obs;
mod ops;
mod real;
mod seg;
mod twin;

use engine::*;
use serde_json::json;
use std::time::{Duration, Instant};

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn silence() {
    if std::env::var("MC_PANICS").is_ok() {
        return;
    }
    std::panic::set_hook(Box::new(|_| {}));
}

fn limits() {
    unsafe {
        let l = libc::rlimit { rlim_cur: 20 << 30, rlim_max: 20 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

fn all_drivers(id: &str, th: bool) -> Vec<Driver> {
    let mut d = drivers::drivers(id, th);
    if let Ok(f) = std::env::var("MC_ONLY") {
        d.retain(|x| x.name.contains(&f));
    }
    d
}

fn known_list(id: &str) -> Vec<(String, String, String)> {
    // entries: {"property","driver","cfg","ops"} where ops is the debug text of the operation list
    let p = format!("{}/known_findings.json", verif_dir());
    let Ok(t) = std::fs::read_to_string(p) else { return vec![] };
    let Ok(v) = serde_json::from_str::<serde_json::Value>(&t) else { return vec![] };
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|e| e["property"] == id && e["status"] == "open")
                .map(|e| {
                    (
                        e["driver"].as_str().unwrap_or("").to_string(),
                        e["ops"].as_str().unwrap_or("").to_string(),
                        e["what"].as_str().unwrap_or("").to_string(),
                    )
                })
                .collect()
        })
        .unwrap_or_default()
}

fn worker(id: &str, tier: &str, progress: &str, budget: u64) {
    silence();
    limits();
    let th = tier == "thorough";
    let ds = all_drivers(id, th);
    let pr = Progress::map(progress, true);
    let threads = std::env::var("MC_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(8usize).min(MAX_THREADS);
    let kl = known_list(id);
    let survey = std::env::var("MC_SURVEY").is_ok();
    let known = move |v: &Violation| survey || kl.iter().any(|(d, o, _)| (d.is_empty() || *d == v.driver) && *o == format!("{:?}", v.ops));
    let out = explore(&ds, threads, Duration::from_secs(budget), &pr, &known);
    if survey {
        // development aid: every kind of violation with its shortest sequence
        let mut g: std::collections::BTreeMap<String, (usize, Violation)> = Default::default();
        for v in &out.known_hits {
            let last = v.ops.last().map(|o| format!("{o:?}").chars().take(12).collect::<String>()).unwrap_or_default();
            let key = format!("{:?} {} {} {}", v.class, v.driver, last, v.msg.chars().filter(|c| !c.is_ascii_digit()).skip(v.msg.find(": ").unwrap_or(0)).take(60).collect::<String>());
            let e = g.entry(key).or_insert((0, v.clone()));
            e.0 += 1;
            if v.ops.len() < e.1.ops.len() {
                e.1 = v.clone();
            }
        }
        for (_, (n, v)) in g {
            eprintln!("#{n} [{}/{}/{}] {:?} {}\n     {:?}", v.driver, v.cfg, v.setup, v.class, v.msg.chars().take(400).collect::<String>(), v.ops);
        }
    }
    let reports: Vec<_> = out
        .reports
        .iter()
        .map(|r| {
            let d = ds.iter().find(|d| d.name == r.name).unwrap();
            report_json(r, d)
        })
        .collect();
    let viol = out.violation.as_ref().map(viol_json);
    let states: usize = out.reports.iter().map(|r| r.stats.states.len()).sum();
    let trans: u64 = out.reports.iter().map(|r| r.stats.steps).sum();
    let execs: u64 = out.reports.iter().map(|r| r.stats.execs).sum();
    println!(
        "{}",
        json!({"reports": reports, "violation": viol, "known": out.known_hits.iter().map(viol_json).collect::<Vec<_>>(), "states": states, "transitions": trans, "executions": execs})
    );
}

fn viol_json(v: &Violation) -> serde_json::Value {
    json!({"driver": v.driver, "cfg": v.cfg, "setup": v.setup, "class": format!("{:?}", v.class), "msg": v.msg, "ops": v.ops, "ops_text": format!("{:?}", v.ops)})
}

/// execute one recorded sequence; exit code 1 when it violates, 0 when not
fn replay(path: &str, quiet: bool) -> i32 {
    let t = std::fs::read_to_string(path).expect("replay file");
    let v: serde_json::Value = serde_json::from_str(&t).unwrap();
    let id = v["property"].as_str().unwrap();
    let th = v["tier"] == "thorough";
    let ds = drivers::drivers(id, th);
    let Some(d) = ds.iter().find(|d| d.name == v["driver"]) else {
        eprintln!("unknown driver");
        return 2;
    };
    let ci = d.cfgs.iter().position(|c| c.name == v["cfg"]).unwrap_or(0);
    let si = d.setups.iter().position(|c| c.name == v["setup"]).unwrap_or(0);
    let ops: Vec<ops::Op> = serde_json::from_value(v["ops"].clone()).unwrap();
    silence();
    limits();
    let th = std::thread::Builder::new().stack_size(32 << 20);
    let d = d.clone();
    let (r, log) = th.spawn(move || {
        let (r, log) = run_one(&d, ci, si, &ops);
        let m = match r {
            Res::Ok { .. } => None,
            Res::Disabled(k) => Some((false, format!("operation {k} is not enabled"))),
            Res::Pruned(k, m) => Some((false, format!("left common ground at {k}: {:?} {}", m.class, m.msg))),
            Res::Bad(k, m) => Some((true, format!("at operation {k}: {:?}: {}", m.class, m.msg))),
        };
        (m, log)
    }).unwrap().join().unwrap();
    if !quiet {
        for l in log {
            println!("  {l}");
        }
    }
    match r {
        Some((true, m)) => {
            println!("VIOLATION reproduced {m}");
            1
        }
        Some((false, m)) => {
            println!("not reproduced: {m}");
            0
        }
        None => {
            println!("not reproduced: the execution is correct");
            0
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("worker") => worker(&a[2], &a[3], &a[4], a[5].parse().unwrap()),
        Some("replay") => std::process::exit(replay(&a[2], false)),
        Some("one") => std::process::exit(replay(&a[2], true)),
        // writes images with the library version this binary was built with (tools/golden.sh)
        Some("golden") => image::golden_write(&a[2]),
        Some("check") => std::process::exit(check(&a[2], a.get(3).map(|s| s.as_str()).unwrap_or("quick"))),
        _ => {
            eprintln!("usage: mc check <property> [quick|thorough] | mc replay <file>");
            std::process::exit(2)
        }
    }
}

fn check(id: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let vd = verif_dir();
    let work = format!("{vd}/evidence/work");
    std::fs::create_dir_all(&work).unwrap();
    let prog = format!("{work}/{id}.{}.progress", std::process::id());
    let _ = std::fs::remove_file(&prog);
    let pr = Progress::map(&prog, true);
    let outp = format!("{work}/{id}.{}.out", std::process::id());
    let budget: u64 = if tier == "thorough" { 6 * 3600 } else { 600 };
    let exe = std::env::current_exe().unwrap();
    let mut child = std::process::Command::new(&exe)
        .args(["worker", id, tier, &prog, &budget.to_string()])
        .stdout(std::fs::File::create(&outp).unwrap())
        .stdin(std::process::Stdio::null())
        .spawn()
        .unwrap();
    let hang_limit = Duration::from_secs(std::env::var("MC_HANG").ok().and_then(|x| x.parse().ok()).unwrap_or(100));
    let mut seen: Vec<(u32, Instant)> = vec![(0, Instant::now()); MAX_THREADS];
    let mut hang: Option<Vec<u32>> = None;
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break Some(s);
        }
        std::thread::sleep(Duration::from_millis(20));
        for t in 0..MAX_THREADS {
            let (c, w) = pr.get(t);
            if c != seen[t].0 {
                seen[t] = (c, Instant::now());
            } else if w.is_some() && seen[t].1.elapsed() > hang_limit {
                hang = w;
                break;
            }
        }
        if hang.is_some() {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
    };
    let th = tier == "thorough";
    let ds = all_drivers(id, th);
    let mut result: serde_json::Value = json!({"reports": [], "violation": null, "known": [], "states": 0, "transitions": 0, "executions": 0});
    let mut viol: Option<serde_json::Value> = None;
    let mut infra: Option<String> = None;
    let decode = |w: &Vec<u32>, class: &str, msg: String| -> serde_json::Value {
        let d = &ds[w[0] as usize];
        let ops: Vec<ops::Op> = w[4..].iter().enumerate().map(|(k, i)| d.layers[k][*i as usize].clone()).collect();
        json!({"driver": d.name, "cfg": d.cfgs[w[1] as usize].name, "setup": d.setups[w[2] as usize].name, "class": class, "msg": msg, "ops": ops, "ops_text": format!("{ops:?}")})
    };
    match status {
        Some(s) if s.success() => match serde_json::from_str(&std::fs::read_to_string(&outp).unwrap_or_default()) {
            Ok(v) => {
                result = v;
                if !result["violation"].is_null() {
                    viol = Some(result["violation"].clone());
                }
            }
            Err(e) => infra = Some(format!("no result from the explorer: {e}")),
        },
        Some(s) => {
            // the process died: find the sequence that kills it
            let mut msg = format!("the exploring process died ({s:?})");
            for t in 0..MAX_THREADS {
                if let (_, Some(w)) = pr.get(t) {
                    let mut v = decode(&w, "Trap", "the process is killed (stack exhausted, abort or memory exhausted)".into());
                    let f = format!("{work}/{id}.cand.json");
                    v["property"] = json!(id);
                    v["tier"] = json!(tier);
                    std::fs::write(&f, v.to_string()).unwrap();
                    let st = std::process::Command::new(&exe).args(["one", &f]).stdout(std::process::Stdio::null()).status().unwrap();
                    use std::os::unix::process::ExitStatusExt;
                    if st.signal().is_some() {
                        msg = String::new();
                        viol = Some(v);
                        break;
                    }
                }
            }
            if !msg.is_empty() {
                infra = Some(msg);
            }
        }
        None => {
            viol = Some(decode(&hang.unwrap(), "Hang", format!("a call did not return within {} s", hang_limit.as_secs())));
        }
    }
    let _ = std::fs::remove_file(&prog);
    let _ = std::fs::remove_file(&outp);
    let mut code = 0;
    let mut nviol = 0;
    let mut replay_path = String::new();
    let mut replays = 0;
    if let Some(v) = &mut viol {
        v["property"] = json!(id);
        v["tier"] = json!(tier);
        replay_path = format!("{vd}/evidence/replay-{id}.json");
        std::fs::write(&replay_path, serde_json::to_string_pretty(v).unwrap()).unwrap();
        // a recorded execution must behave the same again before it is believed
        let believe = if v["class"] == "Hang" {
            true
        } else {
            let mut ok = true;
            for _ in 0..2 {
                let st = std::process::Command::new(&exe).args(["one", &replay_path]).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().unwrap();
                replays += 1;
                if st.code() == Some(0) {
                    ok = false;
                }
            }
            ok
        };
        if believe {
            nviol = 1;
            code = 1;
        } else {
            infra = Some(format!("a violation did not reproduce: {}", v["msg"]));
        }
    }
    let kl = known_list(id);
    let mut known_seen = std::collections::BTreeSet::new();
    for k in result["known"].as_array().into_iter().flatten() {
        for (d, o, w) in &kl {
            if (d.is_empty() || k["driver"] == *d) && k["ops_text"] == *o {
                known_seen.insert(w.clone());
            }
        }
    }
    for w in &known_seen {
        println!("KNOWN-FINDING: property={id} {w}");
    }
    let reports = result["reports"].clone();
    let exhaustive = infra.is_none() && viol.is_none() && reports.as_array().map(|r| r.iter().all(|x| x["exhaustive_within_bounds"] == true)).unwrap_or(false);
    let samples: Vec<serde_json::Value> = reports
        .as_array()
        .map(|r| r.iter().flat_map(|x| x["samples"].as_array().cloned().unwrap_or_default().into_iter().map(|s| json!({"driver": x["driver"], "case": s}))).take(12).collect())
        .unwrap_or_default();
    let ev = json!({
        "property": id,
        "tier": tier,
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        "level": level(id),
        "coverage": {
            "states": result["states"],
            "transitions": result["transitions"],
            "traces_validated_against_impl": result["executions"],
            "exhaustive": exhaustive,
            "bound": "every sequence of operations over each driver's alphabet up to its depth, from each of its starting states and configurations",
            "samples": samples,
            "drivers": reports,
            "replays_of_reported_violation": replays,
        },
        "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": nviol,
    });
    std::fs::write(format!("{vd}/evidence/{id}.json"), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    if code == 1 {
        let v = viol.as_ref().unwrap();
        println!("{} [{} / {}]: {}", v["class"].as_str().unwrap_or(""), v["driver"].as_str().unwrap_or(""), v["cfg"].as_str().unwrap_or(""), v["msg"].as_str().unwrap_or(""));
        println!("operations: {}", v["ops_text"].as_str().unwrap_or("").chars().take(2000).collect::<String>());
        println!("VIOLATION property={id} replay={replay_path}");
    } else if let Some(m) = infra {
        eprintln!("check {id} could not decide: {m}");
        return 2;
    } else {
        println!(
            "{id} held: {} executions, {} states, {} transitions, {:.1} s{}",
            result["executions"],
            result["states"],
            result["transitions"],
            t0.elapsed().as_secs_f64(),
            if exhaustive { "" } else { " (capped by time)" }
        );
    }
    code
}

fn level(_id: &str) -> &'static str {
    "model_checking"
}
