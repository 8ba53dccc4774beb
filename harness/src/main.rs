mod engine;
mod gen;
mod p_field;
mod p_group;
mod p_inst;
mod p_map;
mod p_misc;
mod p_more;
mod refm;
mod world;

use engine::*;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};

#[global_allocator]
static ALLOC: p_misc::heap::Counting = p_misc::heap::Counting;

fn property(id: &str) -> Option<Property> {
    Some(match id {
        "C01" => p_field::c01(),
        "C02" => p_field::c02(),
        "C03" => p_field::c03(),
        "C04" => p_field::c04(),
        "C05" => p_field::c05(),
        "C06" => p_field::c06(),
        "C07" => p_field::c07(),
        "C08" => p_group::c08(),
        "C09" => p_group::c09(),
        "C10" => p_group::c10(),
        "C11" => p_group::c11(),
        "C12" => p_group::c12(),
        "C13" => p_group::c13(),
        "C14" => p_group::c14(),
        "C15" => p_group::c15(),
        "C16" => p_group::c16(),
        "C17" => p_inst::c17(),
        "C18" => p_group::c18(),
        "C19" => p_inst::c19(),
        "C20" => p_inst::c20(),
        "C21" => p_map::c21(),
        "C22" => p_map::c22(),
        "C23" => p_map::c23(),
        "C24" => p_map::c24(),
        "C25" => p_map::c25(),
        "C26" => p_map::c26(),
        "C27" => p_misc::c27(),
        "C28" => p_misc::c28(),
        "C29" => p_misc::c29(),
        "C30" => p_misc::c30(),
        "C31" => p_more::c31(),
        "C32" => p_more::c32(),
        "C33" => p_more::c33(),
        "C34" => p_more::c34(),
        "C35" => p_more::c35(),
        _ => return None,
    })
}
fn root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|| Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf())
}
fn die(m: &str) -> ! {
    eprintln!("HARNESS ERROR {m}");
    std::process::exit(3)
}
const HANG: i32 = 4;
fn case_limit() -> u64 {
    std::env::var("VERIF_CASE_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(180)
}
/// A case that does not come back within the limit (they take milliseconds) is left in a file and
/// ends the run with HANG; the supervisor runs it again by itself in a fresh process, and only if it
/// does not come back there either is it a violation. A whole run that takes more than `total` is no
/// answer: an error exit.
fn watchdog(id: String, total: u64) {
    std::thread::spawn(move || {
        let t0 = std::time::Instant::now();
        let per_case = case_limit();
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            if let Some((clause, case)) = stuck(per_case) {
                let case: Value = serde_json::from_str(&case).unwrap();
                let msg = format!("the operation did not finish within {per_case} s, twice");
                if let Some(f) = std::env::var_os("VERIF_HANG_FILE") {
                    write(Path::new(&f), &json!({"property": id, "clause": clause, "case": case, "message": msg}));
                }
                std::process::exit(HANG);
            }
            if t0.elapsed().as_secs() > total {
                eprintln!("HARNESS ERROR no result after {total} s (inconclusive)");
                std::process::exit(3);
            }
        }
    });
}
fn write(path: &Path, v: &Value) {
    std::fs::create_dir_all(path.parent().unwrap()).unwrap_or_else(|e| die(&format!("{path:?}: {e}")));
    std::fs::write(path, serde_json::to_string_pretty(v).unwrap() + "\n").unwrap_or_else(|e| die(&format!("{path:?}: {e}")));
}
fn run(id: &str) -> i32 {
    let p = property(id).unwrap_or_else(|| die(&format!("unknown property {id}")));
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
    let mut scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    // cases of these are cheap: use the time
    scale *= match id {
            "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" => 8.0,
            "C20" | "C21" | "C23" | "C24" | "C25" | "C26" => 4.0,
            "C09" | "C10" | "C11" | "C13" | "C14" | "C15" | "C16" | "C19" | "C29" | "C30" => 3.0,
            "C17" | "C18" => 0.6,
            "C32" => 0.3,
            "C34" => 0.6,
            _ => 1.0,
        };
    if tier == Tier::Thorough {
        scale = scale.max(1.0);
    }
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(1, 8);
    watchdog(id.to_string(), if tier == Tier::Quick { 840 } else { 6 * 3600 });
    let all = std::env::var_os("VERIF_ALL").is_some();
    let cfg = Cfg { seed, tier, prop: id.to_string(), scale, all };
    let t0 = std::time::Instant::now();
    let (detail, st, fail) = run_property(&p, &cfg, threads);
    let wall = (t0.elapsed().as_secs_f64() * 10.0).round() / 10.0;
    let mut samples = st.samples.clone();
    samples.truncate(12);
    let mut code = 0;
    let mut violations = vec![];
    if let Some((clause, f)) = &fail {
        let path = root().join("replays").join(format!("{id}-{clause}-{seed}.json"));
        write(&path, &json!({"property": id, "clause": clause, "case": f.case, "message": f.msg}));
        let rel = path.display().to_string();
        println!("{id} {clause}: {}", f.msg);
        println!("case: {}", f.case);
        println!("VIOLATION property={id} replay={rel}");
        violations.push(json!({"clause": clause, "message": f.msg, "replay": rel, "case": f.case}));
        code = 1;
    } else {
        println!("{id}: held on {} cases ({} evaluations, {} distinct non-trivial) in {wall} s", st.cases, st.evals, st.distinct.len());
    }
    let ev = json!({
        "property": id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": st.evals,
            "cases": st.cases,
            "nontrivial_cases": st.nontrivial_cases,
            "distinct_nontrivial": st.distinct.len(),
            "rule": p.rule,
            "samples": samples,
            "clauses": detail,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "slowest_case_ms": slowest_ms(),
        "violations": violations.len(),
        "violation": violations,
    });
    write(&root().join("evidence").join(format!("{id}.json")), &ev);
    code
}
fn replay(file: &str) -> i32 {
    let s = std::fs::read_to_string(file).unwrap_or_else(|e| die(&format!("{file}: {e}")));
    let v: Value = serde_json::from_str(&s).unwrap_or_else(|e| die(&format!("{file}: {e}")));
    let id = v["property"].as_str().unwrap_or_else(|| die("no property"));
    let p = property(id).unwrap_or_else(|| die("unknown property"));
    let c = p.clauses.iter().find(|c| Some(c.name) == v["clause"].as_str()).unwrap_or_else(|| die("unknown clause"));
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(case_limit()));
        std::process::exit(HANG)
    });
    match (c.replay)(&v["case"]) {
        Err(e) => die(&e),
        Ok(Ok(_)) => {
            println!("{id} {}: the case passes", c.name);
            0
        }
        Ok(Err(m)) => {
            println!("{id} {}: {m}", c.name);
            println!("VIOLATION property={id} replay={file}");
            1
        }
    }
}
/// Runs a subcommand in a child process. If the child dies by a signal (stack overflow, memory
/// exhaustion), runs it again leaving every case behind before it starts, and replays the last case
/// of each worker: one that kills its process by itself is a violation. Likewise for a case that
/// does not come back.
fn supervise(args: &[String]) -> i32 {
    let exe = std::env::current_exe().unwrap_or_else(|e| die(&e.to_string()));
    let dir = std::env::temp_dir().join(format!("ecc-verif-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap_or_else(|e| die(&e.to_string()));
    let hang = dir.join("hang");
    let status = |args: &[&str], trace: bool| {
        let mut c = std::process::Command::new(&exe);
        c.args(args).env("VERIF_HANG_FILE", &hang);
        if trace {
            c.env("VERIF_TRACE", dir.join("trace"));
        }
        c.status().unwrap_or_else(|e| die(&e.to_string())).code()
    };
    let code = supervise_in(args, &dir, &hang, &status);
    let _ = std::fs::remove_dir_all(&dir);
    code
}
fn supervise_in(args: &[String], dir: &Path, hang: &Path, status: &dyn Fn(&[&str], bool) -> Option<i32>) -> i32 {
    let read = |f: &Path| std::fs::read_to_string(f).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok());
    let bad = |c: Option<i32>| c.is_none() || c == Some(HANG);
    let id = match args {
        [r, f] if r == "replay" => {
            let c = status(&["replay", f], false);
            if !bad(c) {
                return c.unwrap();
            }
            println!("{}", if c.is_none() { "the process died running the case" } else { "the case did not finish" });
            println!("VIOLATION property={} replay={f}", read(Path::new(f)).unwrap_or_default()["property"].as_str().unwrap_or("?"));
            return 1;
        }
        [id] => id,
        _ => die("usage: check <property> | check replay <file>"),
    };
    let mut code = status(&["run", id], false);
    let mut suspects = vec![];
    if code == Some(HANG) {
        suspects.extend(read(hang));
    } else if code.is_none() {
        let _ = std::fs::create_dir_all(dir.join("trace"));
        code = status(&["run", id], true);
        if code.is_none() {
            for f in std::fs::read_dir(dir.join("trace")).map(|d| d.flatten().collect::<Vec<_>>()).unwrap_or_default() {
                if let Some(mut v) = read(&f.path()) {
                    v["property"] = json!(id);
                    v["message"] = json!("the process died running the case");
                    suspects.push(v);
                }
            }
        }
    }
    if !bad(code) {
        return code.unwrap();
    }
    for v in suspects {
        let path = root().join("replays").join(format!("{id}-{}-{}.json", v["clause"].as_str().unwrap_or("?"), if code.is_none() { "died" } else { "hang" }));
        write(&path, &v);
        let p = path.display().to_string();
        if status(&["replay", &p], false) == code {
            println!("{id} {}: {}\ncase: {}", v["clause"], v["message"], v["case"]);
            println!("VIOLATION property={id} replay={p}");
            return 1;
        }
        let _ = std::fs::remove_file(&path);
    }
    eprintln!("HARNESS ERROR the run ended with {code:?}, and no single case reproduces it");
    3
}
fn main() {
    install_hook();
    let a: Vec<String> = std::env::args().collect();
    let code = match (a.get(1).map(|s| s.as_str()), a.get(2)) {
        (Some("run"), Some(id)) => run(id),
        (Some("replay"), Some(f)) => replay(f),
        (Some("supervise"), Some(_)) => supervise(&a[2..]),
        _ => die("usage: ecc-verif run <property> | replay <file>"),
    };
    std::process::exit(code)
}
