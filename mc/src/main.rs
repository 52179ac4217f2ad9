mod core;
mod rng;
mod p_cdma;
mod p_chain;
mod p_crowd;
mod p_plan;
mod p_chaos;
mod p_fh;
mod p_fsk;
mod p_ofdm;
mod p_iter;
mod p_meas;
mod p_py;
mod p_psk;
mod p_stat;

use crate::core::*;
use std::collections::BTreeMap;
use std::fs;
use std::io::Write;
use std::sync::Mutex;

#[global_allocator]
static A: Counting = Counting;

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn deep(self) -> bool {
        self == Tier::Thorough
    }
    /// quick value, thorough value
    pub fn of<T>(self, q: T, t: T) -> T {
        if self.deep() { t } else { q }
    }
}

fn scenarios(id: &str, t: Tier) -> Option<(Vec<Scn>, &'static [&'static str])> {
    Some(match id {
        "C01" => p_iter::c01(t),
        "C02" => p_iter::c02(t),
        "C03" => p_iter::c03(t),
        "C04" => p_iter::c04(t),
        "C05" => p_psk::c05(t),
        "C06" => p_psk::c06(t),
        "C07" => p_ofdm::c07(t),
        "C08" => p_ofdm::c08(t),
        "C10" => p_fsk::c10(t),
        "C11" => p_fsk::c11(t),
        "C19" => p_fh::c19(t),
        "C20" => p_fh::c20(t),
        "C21" => p_fh::c21(t),
        "C22" => p_chaos::c22(t),
        "C23" => p_chaos::c23(t),
        "C24" => p_chaos::c24(t),
        "C25" => p_meas::c25(t),
        "C26" => p_meas::c26(t),
        "C27" => p_meas::c27(t),
        "C28" => p_py::c28(t),
        "C29" => p_py::c29(t),
        "C33" => p_py::c33(t),
        "C18" => p_chain::c18(t),
        "C30" => p_chain::c30(t),
        "C31" => p_chain::c31(t),
        "C32" => p_plan::c32(t),
        "C09" => p_psk::c09(t),
        "C36" => p_psk::c36(t),
        "C37" => p_meas::c37(t),
        "C39" => p_stat::c39(t),
        "C40" => p_stat::c40(t),
        "C12" => p_cdma::c12(t),
        "C13" => p_cdma::c13(t),
        "C14" => p_cdma::c14(t),
        "C15" => p_cdma::c15(t),
        "C16" => p_cdma::c16(t),
        "C17" => p_cdma::c17(t),
        _ => return None,
    })
}

fn verif() -> String {
    std::env::var("KMC_HOME").unwrap_or_else(|_| "/verif".into())
}

struct Known {
    site: String,
    text: String,
}

fn load_known(id: &str) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(s) = fs::read_to_string(format!("{}/known_findings.txt", verif())) {
        for l in s.lines() {
            // known: property=C11 site=<scenario|site> :: text
            if let Some(r) = l.strip_prefix(&format!("known: property={id} site=")) {
                if let Some((site, text)) = r.split_once(" :: ") {
                    v.push(Known { site: site.into(), text: text.into() });
                }
            }
        }
    }
    v
}

fn write_replay(id: &str, tier: Tier, scenario: &str, trace: &[Pt], msg: &str) -> String {
    let dir = format!("{}/replays", verif());
    let _ = fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}.replay");
    let mut s = format!(
        "property {id}\ntier {}\nscenario {scenario}\nmessage {}\n",
        if tier.deep() { "thorough" } else { "quick" },
        msg.replace('\n', " ")
    );
    for p in trace {
        s.push_str(&format!("choice {} {} {}\n", p.c, p.n, p.label));
    }
    let _ = fs::write(&path, s);
    path
}

/// The real stdout: fd 1 is pointed at /dev/null while the code under test runs.
static OUT: Mutex<Option<fs::File>> = Mutex::new(None);
fn say(s: &str) {
    if let Some(f) = OUT.lock().unwrap().as_mut() {
        let _ = writeln!(f, "{s}");
        let _ = f.flush();
    }
}
fn take_stdout() {
    use std::os::fd::FromRawFd;
    unsafe {
        let d = libc::dup(1);
        *OUT.lock().unwrap() = Some(fs::File::from_raw_fd(d));
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(n, 1);
    }
}

fn check(id: &str, tier: Tier) -> i32 {
    let t0 = now_ms();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let Some((scns, assumptions)) = scenarios(id, tier) else {
        say(&format!("unknown property {id}"));
        return 2;
    };
    let known = load_known(id);
    let seen_known: Mutex<BTreeMap<String, String>> = Mutex::new(BTreeMap::new());
    let budget_s: u64 = std::env::var("KMC_BUDGET_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if tier.deep() { 6 * 3600 } else { 780 });
    let lim = Limits {
        deadline_ms: t0 + budget_s * 1000,
        hang_s: 150,
        threads: std::env::var("KMC_THREADS")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)),
    };
    let fatal = |s: &Scn, tr: Vec<Pt>, why: String| {
        let p = write_replay(id, tier, &s.name, &tr, &why);
        say(&format!("{id} {}: {why}", s.name));
        say(&format!("VIOLATION property={id} replay={p}"));
        std::process::exit(1);
    };
    let is_known = |scenario: &str, v: &Violation| -> bool {
        let key = format!("{scenario}|{}", v.site);
        if let Some(k) = known.iter().find(|k| k.site == key) {
            seen_known.lock().unwrap().insert(key, k.text.clone());
            true
        } else {
            false
        }
    };
    let mut tot = Stats::default();
    let mut per = vec![];
    let mut violation: Option<Violation> = None;
    let mut distinct_total = 0usize;
    for s in &scns {
        let st0 = now_ms();
        let st = explore(s, &lim, &fatal, &is_known);
        let secs = (now_ms() - st0) as f64 / 1000.0;
        if std::env::var("KMC_VERBOSE").is_ok() {
            say(&format!(
                "  {id} {}: {} executions, {} states, {} steps, {} outcomes, depth {}, {:.2}s{}",
                s.name, st.executions, st.states, st.steps, st.distinct.len(), st.max_depth, secs,
                if st.capped { " CAPPED" } else { "" }
            ));
        }
        if let Some(e) = st.error {
            say(&format!("{id} {}: harness error: {e}", s.name));
            return 2;
        }
        per.push(format!(
            "{{\"name\":{},\"bound\":{},\"executions\":{},\"states\":{},\"steps_compared\":{},\"distinct_outcomes\":{},\"max_choices\":{},\"complete\":{},\"wall_s\":{:.3}}}",
            json_str(&s.name), json_str(&s.bound), st.executions, st.states, st.steps, st.distinct.len(),
            st.max_depth, !st.capped && st.violations.is_empty(), secs
        ));
        distinct_total += st.distinct.len();
        tot.executions += st.executions;
        tot.states += st.states;
        tot.steps += st.steps;
        tot.capped |= st.capped;
        for x in st.samples.into_iter().take(2) {
            if tot.samples.len() < 12 {
                tot.samples.push(x);
            }
        }
        if !st.violations.is_empty() {
            let mut vs = st.violations;
            vs.sort_by_key(|v| (v.trace.iter().map(|p| p.c as u64).sum::<u64>(), v.trace.len()));
            violation = Some(vs.remove(0));
            break;
        }
    }
    for (k, t) in seen_known.lock().unwrap().iter() {
        say(&format!("KNOWN-FINDING: property={id} {k} {t}"));
    }
    let wall = (now_ms() - t0) as f64 / 1000.0;
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{seed},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"distinct_outcomes\":{},\"exhaustive\":{},\"states_meaning\":\"nodes of the explored choice trees\",\"transitions_meaning\":\"items produced by the real code and compared with the reference model\",\"conformance\":\"every explored execution runs the code built from /repo's working tree; the reference model is compared with it item by item, so each one is a validated trace\",\"scenarios\":[{}],\"samples\":[{}]}},\"assumptions\":[{}],\"wall_s\":{wall:.3},\"violations\":{}}}\n",
        json_str(id),
        json_str(if tier.deep() { "thorough" } else { "quick" }),
        tot.states, tot.steps, tot.executions, distinct_total,
        !tot.capped && violation.is_none(),
        per.join(","),
        tot.samples.iter().map(|s| json_str(&s.chars().take(600).collect::<String>())).collect::<Vec<_>>().join(","),
        assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","),
        if violation.is_some() { 1 } else { 0 }
    );
    let _ = fs::create_dir_all(format!("{}/evidence", verif()));
    if let Err(e) = fs::write(format!("{}/evidence/{id}.json", verif()), ev) {
        say(&format!("cannot write evidence: {e}"));
        return 2;
    }
    if let Some(v) = violation {
        // once more, alone, to tell whether it depends on what ran before
        let sc = scns.iter().find(|s| s.name == v.scenario).unwrap();
        let slot = Slot::new();
        let o = run_once(sc, &v.trace, &slot, false, false);
        let again = match o.verdict {
            Verdict::Bad(_) => "reproduced on re-execution",
            Verdict::Ok => "not reproduced by re-execution alone: the code's answer depends on earlier calls in the process",
            Verdict::Diverged(_) => "re-execution took a different path: the code's answer depends on earlier calls in the process",
        };
        let p = write_replay(id, tier, &v.scenario, &v.trace, &v.msg);
        say(&format!("{id} {}: {} ({again})", v.scenario, v.msg));
        say(&format!("  choices: {}", v.trace.iter().map(|p| format!("{}={}/{}", p.label, p.c, p.n)).collect::<Vec<_>>().join(" ")));
        say(&format!("VIOLATION property={id} replay={p}"));
        return 1;
    }
    say(&format!(
        "{id}: held on {} executions, {} states, {} compared steps, {} distinct outcomes in {wall:.1} s{}",
        tot.executions, tot.states, tot.steps, distinct_total,
        if tot.capped { " (time cap reached: not exhaustive)" } else { "" }
    ));
    0
}

fn replay(path: &str) -> i32 {
    let s = fs::read_to_string(path).expect("replay file");
    let (mut id, mut sc, mut tier, mut pts) = (String::new(), String::new(), Tier::Quick, vec![]);
    for l in s.lines() {
        if let Some(x) = l.strip_prefix("property ") {
            id = x.into()
        } else if let Some(x) = l.strip_prefix("scenario ") {
            sc = x.into()
        } else if let Some(x) = l.strip_prefix("tier ") {
            tier = if x == "thorough" { Tier::Thorough } else { Tier::Quick }
        } else if let Some(x) = l.strip_prefix("choice ") {
            let mut it = x.splitn(3, ' ');
            let c = it.next().unwrap().parse().unwrap();
            let n = it.next().unwrap().parse().unwrap();
            pts.push(Pt { label: Box::leak(it.next().unwrap().to_string().into_boxed_str()), n, c });
        }
    }
    let (scns, _) = scenarios(&id, tier).expect("property");
    let s = scns.iter().find(|s| s.name == sc).expect("scenario");
    let o = run_once(s, &pts, &Slot::new(), true, true);
    for n in &o.notes {
        say(&format!("note: {n}"));
    }
    match o.verdict {
        Verdict::Ok => {
            say("replay: property held");
            0
        }
        Verdict::Bad(m) => {
            say(&format!("replay: {m}"));
            say(&format!("VIOLATION property={id} replay={path}"));
            1
        }
        Verdict::Diverged(m) => {
            say(&format!("replay diverged: {m}"));
            2
        }
    }
}

fn main() {
    now_ms();
    let a: Vec<String> = std::env::args().collect();
    let tier = match std::env::var("KMC_TIER").or_else(|_| std::env::var("VERIF_TIER")).as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    take_stdout();
    install_panic_hook();
    p_py::start();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2], tier),
        Some("replay") => replay(&a[2]),
        Some("solo") => match p_chain::solo(a[2].parse().unwrap_or(usize::MAX)) {
            Some(s) => {
                say(&format!("SOLO {s}"));
                0
            }
            None => 2,
        },
        Some("crowd") => match p_crowd::child(&a[2], a[3].parse().unwrap_or(0)) {
            Some(s) => {
                say(&format!("CROWD {s}"));
                0
            }
            None => 2,
        },
        _ => {
            say("usage: kmc check ID | replay FILE");
            2
        }
    };
    std::process::exit(code);
}
