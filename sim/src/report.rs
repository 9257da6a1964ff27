//! Verdicts, replay files and evidence.
use crate::engine::{minimise, run_child, Judge, Search, Shared, Violation, COUNTERS, NCOUNT};
use crate::kern::{self, NSTATS};
use crate::plan::Plan;
use crate::props::{Prop, PROPS};
use crate::sys::map;
use std::fmt::Write;
use std::sync::atomic::Ordering;
use std::time::Instant;

const STATS: [&str; NSTATS] = [
    "steps", "switches", "preemptions", "accesses_to_shared_data", "allocations", "alloc_faults", "entropy_reads",
    "entropy_faults", "clock_reads", "clock_jumps", "env_reads", "futex_waits", "futex_wakes", "spurious_wakes",
    "stalls", "sleeps", "threads_spawned_by_the_library", "sink_faults", "recycled_blocks", "calls_from_a_sink", "sim_ns", "sched_hash",
    "event_hash", "switch_points_new",
];

fn home() -> std::path::PathBuf {
    // .../verif/sim/target/VARIANT/.../simulator
    let exe = std::env::current_exe().expect("own path");
    exe.ancestors().find(|p| p.join("check.sh").is_file()).expect("own path").to_path_buf()
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() > n {
        s.chars().take(n).collect::<String>() + "..."
    } else {
        s.to_string()
    }
}

fn variant() -> &'static str {
    if !cfg!(debug_assertions) {
        "release"
    } else if kern::guards() == 0 {
        "plain"
    } else {
        "inst"
    }
}

/// Known findings: lines `known: property=ID class=CLASS message=TEXT`.
fn known(prop: &str, v: &Violation) -> Option<String> {
    let f = std::fs::read_to_string(home().join("known_findings.txt")).ok()?;
    let want = format!("known: property={prop} class={} message={}", v.class, v.msg);
    f.lines().find(|l| **l == *want).map(|l| l.trim_start_matches("known: ").to_string())
}

pub fn check(s: &Search, tier: &str, carry: Option<String>, keep: Option<String>) -> i32 {
    let start = Instant::now();
    let sh: &'static Shared = unsafe {
        let p: *mut Shared = map(0, std::mem::size_of::<Shared>(), true).cast();
        kern::COV = std::ptr::addr_of_mut!((*p).cov);
        &*p
    };
    let id = s.prop.id;
    let first = s.go(sh);
    if sh.harness.load(Ordering::SeqCst) != 0 {
        eprintln!("simulator: {id}: the check itself failed");
        return 2;
    }
    let mut code = 0;
    let mut violations = 0;
    let mut finding = String::new();
    if let Some(i) = first {
        let plan = s.plan(i);
        let mut judge = Judge::new(s.prop);
        let (_, v) = judge.judge(&plan, 120);
        let class = v.first().map_or("gone".to_string(), |v| v.class.clone());
        let (small, v) = minimise(&mut judge, plan, v, &class, if tier == "thorough" { 180.0 } else { 60.0 });
        let Some(v) = v.first() else {
            eprintln!("simulator: {id}: run {i} did not repeat ({class})");
            return 2;
        };
        if let Some(k) = known(id, v) {
            println!("KNOWN-FINDING: {k}");
        } else {
            let dir = home().join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{id}-{}-seed{}-run{i}.txt", variant(), s.seed));
            let text = format!(
                "# {} (run {i} of seed {}, minimised)\nproperty {id}\nvariant {}\nclass {}\n{}",
                v.msg.replace('\n', " "),
                s.seed,
                variant(),
                v.class,
                small.text()
            );
            if std::fs::write(&path, text).is_err() {
                eprintln!("simulator: cannot write {}", path.display());
                return 2;
            }
            println!("{id}: {}: {}", v.class, clip(&v.msg, 1500));
            println!("VIOLATION property={id} replay={}", path.display());
            violations = 1;
            code = 1;
            finding = format!("{}: {}", v.class, clip(&v.msg, 600));
        }
    }
    let mut sum = [0u64; NSTATS + NCOUNT];
    let mut max = [0u64; NSTATS + NCOUNT];
    for w in &sh.workers {
        let w = unsafe { &*w.get() };
        for i in 0..NSTATS + NCOUNT {
            sum[i] = sum[i].wrapping_add(w[i]);
            max[i] = max[i].max(w[i]);
        }
    }
    for i in 18..23 {
        sum[NSTATS + i] = max[NSTATS + i];
    }
    let mut distinct = sh.distinct.load(Ordering::SeqCst);
    let mut inter = sh.interleavings.load(Ordering::SeqCst);
    let mut wall = start.elapsed().as_secs_f64();
    let mut edges = sh.cov.edges.iter().filter(|&&b| b != 0).count() as u64;
    let mut variants = variant().to_string();
    let mut samples: Vec<String> = (0..2).map(|i| clip(&s.plan(i).text(), 1200)).collect();
    if !finding.is_empty() {
        samples.insert(0, finding);
    }
    // Figures of the same check on another build.
    if let Some(t) = carry.and_then(|c| std::fs::read_to_string(c).ok()) {
        let mut w = t.lines();
        let mut next = || w.next().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
        for (i, v) in sum.iter_mut().enumerate() {
            let x = next();
            *v = if (NSTATS + 18..NSTATS + 23).contains(&i) { x.max(*v) } else { v.wrapping_add(x) };
        }
        distinct += next();
        inter += next();
        edges = edges.max(next());
        wall += next() as f64 / 1000.0;
        violations = violations.max(next());
        variants = format!("{} and {variants}", w.next().unwrap_or("?"));
    }
    if let Some(k) = keep {
        let mut t = String::new();
        for v in sum.iter().chain(&[distinct, inter, edges, (wall * 1000.0) as u64, violations]) {
            let _ = writeln!(t, "{v}");
        }
        let _ = writeln!(t, "{variants}");
        let _ = std::fs::write(k, t);
    }
    let st = |n: &str| sum[STATS.iter().position(|x| *x == n).expect("statistic")];
    let ct = |n: &str| sum[NSTATS + COUNTERS.iter().position(|x| *x == n).expect("counter")];
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"wall_s\":{wall:.1},\"violations\":{violations},\"coverage\":{{",
        json(id),
        json(tier),
        s.seed
    );
    let _ = write!(
        o,
        "\"evaluations\":{},\"distinct_nontrivial\":{distinct},\"rule\":{},\"samples\":[{}],",
        ct("runs"),
        json(&format!(
            "{}; distinct by the hash of the run's schedule, faults and outcomes in a table of 4,194,304 (an undercount)",
            s.prop.rule
        )),
        samples.iter().map(|s| json(s)).collect::<Vec<_>>().join(",")
    );
    let _ = write!(
        o,
        "\"runs_planned\":{},\"runs_per_hour\":{:.0},\"seeds_per_hour\":{:.0},\"simulated_seconds\":{:.6},\"distinct_interleavings\":{inter},\"interleaving_measure\":\"hash of the sequence of switches, each with the step it happened at\",\"basic_blocks_reached\":{edges},\"basic_blocks_instrumented\":{},\"builds\":{},",
        s.runs,
        ct("runs") as f64 * 3600.0 / wall.max(0.001),
        ct("runs") as f64 * 3600.0 / wall.max(0.001),
        st("sim_ns") as f64 / 1e9,
        kern::guards(),
        json(&variants)
    );
    let fault = [
        ("allocation refused, one", ct("alloc_fail_one")),
        ("allocation refused, all from one on", ct("alloc_fail_from")),
        ("allocation refused beyond a budget", ct("alloc_fail_budget")),
        ("caller stopped inside a call", st("stalls")),
        ("caller preempted inside a call", st("preemptions")),
        ("entropy read interrupted, short or refused", st("entropy_faults")),
        ("clock jump seen", st("clock_jumps")),
        ("futex wake-up without cause", st("spurious_wakes")),
        ("sink refused, tore or interrupted a write, or panicked", st("sink_faults")),
        ("sink that calls the library", st("calls_from_a_sink")),
        ("result dropped while all memory is refused", ct("drops_without_memory")),
        ("freed memory handed out again", st("recycled_blocks")),
        ("call while unwinding", ct("calls_while_unwinding")),
        ("call during thread exit", ct("calls_in_thread_exit")),
    ];
    let f: Vec<String> = fault.iter().map(|(n, v)| format!("{}:{v}", json(n))).collect();
    let _ = write!(o, "\"faults_injected\":{{{}}},", f.join(","));
    let mut f: Vec<String> = Vec::new();
    for (i, n) in STATS.iter().enumerate() {
        if !matches!(*n, "sched_hash" | "event_hash" | "sim_ns") {
            f.push(format!("{}:{}", json(n), sum[i]));
        }
    }
    for (i, n) in COUNTERS.iter().enumerate() {
        f.push(format!("{}:{}", json(n), sum[NSTATS + i]));
    }
    let _ = write!(o, "\"counts\":{{{}}},", f.join(","));
    let _ = write!(
        o,
        "\"real_components\":[\"the whole rescan crate built from /repo's working tree, with its dependencies\",\"std's collections, formatting, unwinding, thread-local storage and locks\"],\"simulated_components\":[\"thread scheduler\",\"futex\",\"memory allocator\",\"getrandom\",\"clocks, sleep and yield\",\"environment variables\",\"output sinks\",\"thread stacks of stated size\"]}},"
    );
    let _ = write!(
        o,
        "\"assumptions\":[{}]}}",
        [
            "one thread runs at a time: effects of weak memory ordering are not simulated",
            "threads switch at basic blocks, allocations, accesses to static data and system calls of the library, its dependencies and the standard library, not inside a basic block",
        ]
        .iter()
        .map(|s| json(s))
        .collect::<Vec<_>>()
        .join(",")
    );
    let dir = home().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(dir.join(format!("{id}.json")), o + "\n").is_err() {
        eprintln!("simulator: cannot write the evidence");
        return 2;
    }
    println!(
        "{id}: {} runs ({} distinct and non-trivial), {} processes, {inter} interleavings, {edges} of {} blocks, {wall:.1} s, {} build: {}",
        ct("runs"),
        distinct,
        ct("library_processes") + ct("reference_processes"),
        kern::guards(),
        variant(),
        if code == 0 { "held" } else { "VIOLATED" }
    );
    code
}

pub fn read_replay(path: &str) -> Option<(&'static Prop, String, String, Plan)> {
    let t = std::fs::read_to_string(path).ok()?;
    let field = |n: &str| t.lines().find_map(|l| l.strip_prefix(n)).map(|x| x.trim().to_string());
    let id = field("property ")?;
    let prop = PROPS.iter().find(|p| p.id == id)?;
    let body: String = t
        .lines()
        .filter(|l| !["#", "property ", "variant ", "class "].iter().any(|p| l.starts_with(p)))
        .map(|l| l.to_string() + "\n")
        .collect();
    Some((prop, field("variant ")?, field("class ")?, Plan::parse(&body)?))
}

pub fn replay(path: &str) -> i32 {
    let Some((prop, var, class, plan)) = read_replay(path) else {
        eprintln!("simulator: {path} is not a replay file");
        return 2;
    };
    if var != variant() {
        eprintln!("simulator: {path} is for the {var} build");
        return 2;
    }
    let mut j = Judge::new(prop);
    let (o, v) = j.judge(&plan, 120);
    println!("events {:016x}", o.digest);
    for x in v.iter() {
        println!("{}: {}: {}", prop.id, x.class, x.msg);
    }
    if v.iter().any(|x| x.class == class) {
        println!("VIOLATION property={} replay={path}", prop.id);
        1
    } else {
        println!("{}: the run of {path} does not break the property", prop.id);
        0
    }
}

/// The simulator's own determinism: the same plans, in other processes and in
/// another order, give the same events and outcomes.
pub fn selftest(only: Option<&'static Prop>, runs: u64) -> i32 {
    let mut bad = 0;
    for prop in PROPS.iter().filter(|p| only.map_or(true, |o| o.id == p.id)) {
        let s = Search {
            prop,
            seed: 77,
            runs,
            workers: 1,
            cap: 1e9,
            dict: crate::gen::Dict::load("/repo/src"),
        };
        let mut plans = Vec::new();
        for e in 0..(runs + 63) / 64 {
            plans.push(s.plan(e * 64 + e % 64));
        }
        let _ = Judge::new(prop);
        let first: Vec<u64> = plans.iter().map(|p| run_child(p, 120).digest).collect();
        let _heap: Vec<Vec<u8>> = (0..1000).map(|i| vec![1; i]).collect();
        for i in (0..plans.len()).rev() {
            let p = Plan::parse(&plans[i].text());
            if p.as_ref() != Some(&plans[i]) {
                println!("{}: plan {i} does not read back", prop.id);
                bad += 1;
                continue;
            }
            if run_child(&p.expect("plan"), 120).digest != first[i] {
                println!("{}: plan {i} is not deterministic", prop.id);
                print!("{}", clip(&plans[i].text(), 3000));
                bad += 1;
            }
        }
        println!("{}: {} plans run twice", prop.id, plans.len());
    }
    i32::from(bad > 0)
}
