//! C17: the command that checks the program against labelled logs.
use crate::cli::*;
use crate::gen::*;
use crate::lines::pieces;
use crate::proc::log;
use simcore::*;
use std::collections::HashSet;

pub const C17: Property = Property {
    id: "C17",
    scenarios: &[(Scenario { name: "datasets", run: c17 }, 1)],
    quick_runs: 14_000,
    thorough_runs: 150_000,
    rule: "a run counts when a dataset with at least one new line was judged, or a fault was injected; distinct by content, labels, faults and schedule",
    real: "the whole program: logreduce-cli (test command) with everything below it down to libc",
    stub: "the file system below the system call interface, standard output and error, futexes, clock and randomness",
    assumptions: &["standard output can be written", "lines are built so that their distance is clearly below or above the threshold", "a dataset has one log of each kind"],
};

fn quote(s: &str) -> String {
    format!("'{}'", s.replace('\'', "''"))
}

fn c17(ctx: &mut Ctx) -> Verdict {
    let w = &mut ctx.w;
    let n = 1 + w.below(3) as usize;
    let mut args = strs(&["test"]);
    let mut fine = true;
    let mut news = 0;
    let mut sets = vec![];
    for d in 0..n {
        let k = 1 + w.below(6) as usize;
        let mut world = World::new(w.bulk(), k);
        let mut good = Vec::new();
        for i in 0..k {
            good.extend_from_slice(world.known(i).as_bytes());
            good.push(b'\n');
        }
        let fail = log(w, &mut world, false);
        let found = expected(&pieces(&fail, false), &world.cls, &mut HashSet::new());
        news += found.len();
        // the labels: parts of the lines, all of them in order unless something is wrong with them
        let mut r = w.bulk();
        let mut labels: Vec<String> = found
            .iter()
            .map(|a| {
                let ws: Vec<&str> = a.line.split(' ').collect();
                let at = r.below(ws.len() as u64) as usize;
                let to = at + 1 + r.below((ws.len() - at) as u64) as usize;
                ws[at..to].join(" ")
            })
            .collect();
        let i = w.below(labels.len() as u64 + 1) as usize;
        match w.below(9) {
            0 if i < labels.len() => {
                labels.remove(i);
            }
            1 => labels.insert(i, format!("{} {}", word(&mut r), word(&mut r))),
            2 if i < labels.len() => labels[i] = format!("{}x{}", labels[i], word(&mut r)),
            3 if labels.len() > 1 && i < labels.len() => {
                let l = labels.remove(i);
                labels.push(l);
            }
            // the same words, but not the same text
            4 if i < labels.len() => {
                let other = if w.chance(1, 2) { labels[i].to_uppercase() } else { labels[i].to_lowercase() };
                labels[i] = other;
            }
            // a line that is only shown along with the new one
            5 if i < labels.len() => {
                let a = &found[i];
                let all: Vec<&String> = a.before.iter().chain(&a.after).collect();
                if !all.is_empty() {
                    labels[i] = (*r.pick(&all)).clone();
                }
            }
            _ => {}
        }
        fine &= labels.len() == found.len() && labels.iter().zip(&found).all(|(l, a)| a.line.contains(l.trim()));
        let mut inf = String::from(if labels.is_empty() { "anomalies: []\n" } else { "anomalies:\n" });
        for l in &labels {
            inf.push_str(&format!("- line: {}\n", quote(l)));
        }
        let dir = format!("sets/{}{}", word(&mut r), d);
        args.push(dir.clone());
        sets.push((dir, good, fail, inf, world));
    }
    let p = match w.below(3) {
        0 => FaultPlan::default(),
        1 => FaultPlan { rate: 6, single_at: None, max: 3 },
        _ => FaultPlan { rate: 0, single_at: Some(w.below(24)), max: 1 },
    };
    for (dir, good, fail, inf, _) in &sets {
        ctx.write(&format!("{}/log.good", dir), good);
        ctx.write(&format!("{}/log.fail", dir), fail);
        ctx.write(&format!("{}/inf.yaml", dir), inf.as_bytes());
        if ctx.w.chance(1, 3) {
            ctx.write(&format!("{}/README", dir), b"something else\n");
        }
    }
    let cfg = PhaseCfg { vary: ctx.w.chance(1, 2), ..PhaseCfg::default() }.fault(p).scope("sets/", IN_FAULTS);
    let o = program(ctx, "program", Prog::Logreduce, &args, cfg, Net::default());
    ctx.nontrivial = news > 0 || !o.faults.is_empty();
    ctx.case = format!("{} datasets, {} new lines, labels right: {}; {}", n, news, fine, o.faults.iter().map(|f| format!("{} {}", kind_name(f.kind), f.what)).collect::<Vec<_>>().join(", "));
    let hit = o.harmful();
    match status(&o)? {
        None => Ok(()),
        Some(0) => {
            for f in &hit {
                let file = f.what.split(' ').next().unwrap();
                if file.ends_with(".good") {
                    // a baseline that fails is named, and what could not be learned is new
                    ensure!(o.out.contains(file) || o.err.contains(file), "baseline-not-named", "the status is 0, but {} could not be read and the output does not say so", file);
                } else {
                    return Err(Viol::new("accepted-unread", format!("the status is 0, but {} failed: {}", f.what, kind_name(f.kind))));
                }
            }
            // with an incomplete baseline the labels may fit by chance only when nothing was lost of what matters
            let lost = hit.iter().any(|f| f.what.contains(".good "));
            ensure!(fine || lost, "accepted", "the status is 0, but the labels do not match what is to be found");
            Ok(())
        }
        Some(s) => {
            ensure!(!o.err.trim().is_empty() || !o.panics.is_empty(), "silent", "the status is {}, without any message", s);
            ensure!(o.panics.is_empty(), "panic", "the program panicked: {}", o.panics);
            ensure!(!fine || !hit.is_empty(), "refused", "the labels match what is to be found, but the status is {}: {} {}", s, o.err, o.panics);
            Ok(())
        }
    }
}
