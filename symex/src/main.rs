#![allow(dead_code)]
mod exec;
mod expr;
mod ir;
mod sat;
mod smt;

use exec::*;
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Args {
    ll: String,
    harness: String,
    out: String,
    time: u64,
    smt_time: u64,
    /// seconds for everything; what is undecided then stays so
    wall: u64,
    max_iter: u32,
    seed: u64,
    samples: usize,
    cross: bool,
    chunk: usize,
    jobs: usize,
    trace: bool,
    budget: u64,
}

struct Ext<'a> {
    args: &'a Args,
    end: Instant,
    queries: usize,
    lines: usize,
    time: f64,
    wall: f64,
    by: BTreeMap<String, f64>,
}

impl Ext<'_> {
    /// Is one of the conjunctions satisfiable?  Asks in chunks, several at a time; a chunk without
    /// an answer is halved.
    fn decide(&mut self, cx: &expr::Ctx, solver: &str, conds: &[&[expr::B]], chunk: usize) -> smt::Answer {
        let t0 = Instant::now();
        let limit = (self.args.smt_time as f64).min(self.end.saturating_duration_since(t0).as_secs_f64()).max(1.0);
        let mut todo: Vec<(usize, usize, u64)> = vec![];
        let first = if conds.len() <= chunk { self.args.smt_time } else { (self.args.smt_time / 8).max(5) };
        let mut i = 0;
        while i < conds.len() {
            let j = (i + chunk).min(conds.len());
            todo.push((i, j, first));
            i = j;
        }
        todo.reverse();
        let (tx, rx) = std::sync::mpsc::channel();
        let mut live = 0;
        let mut out = smt::Answer::Unsat;
        let mut stop = false;
        loop {
            while live < self.args.jobs && !stop {
                let Some((i, j, lim)) = todo.pop() else { break };
                let q = smt::Emit::new(cx).query(&conds[i..j]);
                self.queries += 1;
                self.lines = self.lines.max(q.text.lines().count());
                if let Ok(d) = std::env::var("SYMEX_DUMP") {
                    let _ = std::fs::write(format!("{}/q{}.smt2", d, self.queries), &q.text);
                }
                let tx = tx.clone();
                let s = solver.to_string();
                let lim = lim.min((limit - t0.elapsed().as_secs_f64()).max(1.0) as u64);
                live += 1;
                std::thread::spawn(move || {
                    let t = Instant::now();
                    let r = smt::solve(&s, &q, lim);
                    let _ = tx.send((i, j, lim, r, t.elapsed().as_secs_f64(), q.text.len()));
                });
            }
            if live == 0 {
                break;
            }
            let (i, j, lim, r, dt, len) = rx.recv().unwrap();
            live -= 1;
            self.time += dt;
            *self.by.entry(solver.to_string()).or_insert(0.0) += dt;
            if self.args.trace && dt > 1.0 {
                eprintln!("{} conditions {}..{} of {}, {} bytes: {:.2}s", solver, i, j, conds.len(), len, dt);
            }
            match r {
                smt::Answer::Unsat => {}
                smt::Answer::Sat(m) => {
                    out = smt::Answer::Sat(m);
                    stop = true;
                }
                smt::Answer::Unknown(e) => {
                    if t0.elapsed().as_secs_f64() >= limit || (j - i == 1 && lim as f64 * 2.0 > limit) {
                        if !matches!(out, smt::Answer::Sat(_)) {
                            out = smt::Answer::Unknown(e);
                        }
                        stop = true;
                    } else if j - i == 1 {
                        todo.insert(0, (i, j, lim * 4));
                    } else {
                        let k = (i + j) / 2;
                        todo.push((k, j, lim));
                        todo.push((i, k, lim));
                    }
                }
            }
        }
        self.wall += t0.elapsed().as_secs_f64();
        out
    }
}

fn refs(l: &[Vec<expr::B>]) -> Vec<&[expr::B]> {
    l.iter().map(|c| &c[..]).collect()
}

fn main() {
    let mut a = Args { ll: String::new(), harness: String::new(), out: String::new(), time: 300, smt_time: 300, wall: 100000, max_iter: 3000, seed: 1, samples: 8, cross: false, chunk: 256, jobs: 4, trace: false, budget: 50000 };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        let mut v = || it.next().unwrap_or_default();
        match x.as_str() {
            "--ll" => a.ll = v(),
            "--harness" => a.harness = v(),
            "--out" => a.out = v(),
            "--time" => a.time = v().parse().unwrap(),
            "--smt-time" => a.smt_time = v().parse().unwrap(),
            "--wall" => a.wall = v().parse().unwrap(),
            "--max-iter" => a.max_iter = v().parse().unwrap(),
            "--seed" => a.seed = v().parse().unwrap(),
            "--samples" => a.samples = v().parse().unwrap(),
            "--budget" => a.budget = v().parse().unwrap(),
            "--chunk" => a.chunk = v().parse().unwrap(),
            "--jobs" => a.jobs = v().parse().unwrap(),
            "--cross" => a.cross = true,
            "--trace" => a.trace = true,
            _ => {
                eprintln!("unknown argument {}", x);
                std::process::exit(64);
            }
        }
    }
    let h = std::thread::Builder::new().stack_size(3 << 30).spawn(move || go(a)).unwrap();
    let code = h.join().unwrap_or(70);
    std::process::exit(code);
}

fn go(a: Args) -> i32 {
    let t0 = Instant::now();
    let m = match ir::Module::load(&a.ll) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("{}", e);
            return 65;
        }
    };
    let mut en = Engine::new(m, a.seed, t0 + Duration::from_secs(a.time));
    en.trace = a.trace;
    en.max_iter = a.max_iter;
    en.budget = a.budget;
    let r = en.run(&a.harness);
    let t_explore = t0.elapsed().as_secs_f64();
    let mut verdict = "ok".to_string();
    let mut detail = String::new();
    let mut cex: Option<Violation> = None;
    match r {
        Ok(()) => {}
        Err(Stop::Err(e)) => {
            verdict = "error".into();
            detail = e;
        }
        Err(Stop::Viol(v)) => {
            // a limit of the exploration: perhaps the code runs for ever, perhaps it does not
            let bound = v.kind == "time" || v.kind == "nontermination";
            verdict = if bound { "incomplete" } else { "violation" }.into();
            detail = format!("{}: {}", v.kind, v.msg);
            cex = Some(v);
        }
    }
    // the external solver decides: it has to find every refutation of the exploration again, and
    // to answer what the exploration left open
    let mut ext = Ext { args: &a, end: t0 + Duration::from_secs(a.wall), queries: 0, lines: 0, time: 0.0, wall: 0.0, by: BTreeMap::new() };
    let mut cores: Vec<Vec<expr::B>> = en.cores.iter().map(|c| c.to_vec()).collect();
    cores.sort_by_key(|c| (c.iter().max().copied(), c.clone()));
    let mut witness_sat = false;
    if verdict == "ok" || verdict == "incomplete" {
        let start = verdict.clone();
        let solvers: Vec<&str> = if a.cross { vec!["z3-new", "cvc5"] } else { vec!["z3-new"] };
        for s in solvers {
            if verdict != start {
                break;
            }
            let conds: Vec<Vec<expr::B>> = en.open.iter().map(|x| vec![x.cond]).collect();
            match ext.decide(&en.cx, s, &refs(&conds), 1) {
                smt::Answer::Unsat => {}
                smt::Answer::Unknown(e) => {
                    verdict = "incomplete".into();
                    detail = format!("{} gave no answer on the obligations: {}; {}", s, e, detail);
                }
                smt::Answer::Sat(mdl) => {
                    en.cx.add_model(mdl);
                    let w = en.cx.nwords() - 1;
                    let n = (0..64).rev().find(|i| conds.iter().any(|c| en.cx.sig(c[0], w) >> i & 1 == 1));
                    match n {
                        Some(i) => {
                            let k = conds.iter().position(|c| en.cx.sig(c[0], w) >> i & 1 == 1).unwrap();
                            let vals = (0..en.syms.len()).map(|j| { let e = en.syms[j].e; en.cx.eval_e(e, w, i) }).collect();
                            verdict = "violation".into();
                            detail = en.open[k].what.clone();
                            cex = Some(Violation { kind: detail.split(':').next().unwrap().to_string(), msg: detail.clone(), cond: conds[k][0], vals });
                        }
                        None => {
                            verdict = "error".into();
                            detail = format!("{} reports a model that does not check", s);
                        }
                    }
                }
            }
            if verdict == start {
                match ext.decide(&en.cx, s, &refs(&cores), a.chunk) {
                    smt::Answer::Unsat => {}
                    smt::Answer::Unknown(e) => {
                        verdict = "incomplete".into();
                        detail = format!("{} gave no answer on the refutations: {}; {}", s, e, detail);
                    }
                    smt::Answer::Sat(_) => {
                        verdict = "error".into();
                        detail = format!("{} disagrees with a refutation", s);
                    }
                }
            }
            // and everything a truth table decided
            if verdict == start {
                let all: Vec<&[expr::B]> = en.cx.lemmas.iter().collect();
                let some: Vec<&[expr::B]> = all.iter().skip(a.seed as usize % 16).step_by(all.len() / 20000 + 1).copied().collect();
                let first = s == "z3-new";
                match ext.decide(&en.cx, s, if first { &all } else { &some }, if first { 4000 } else { 2000 }) {
                    smt::Answer::Unsat => {}
                    smt::Answer::Unknown(e) => {
                        verdict = "incomplete".into();
                        detail = format!("{} gave no answer on the truth tables: {}; {}", s, e, detail);
                    }
                    smt::Answer::Sat(_) => {
                        verdict = "error".into();
                        detail = format!("{} disagrees with a truth table", s);
                    }
                }
            }
        }
        // the harness has to have an end that some input reaches
        let fin: Vec<Vec<expr::B>> = en.finals.iter().take(16).map(|x| vec![x.0]).collect();
        if verdict == "ok" {
            if fin.is_empty() {
                verdict = "error".into();
                detail = "vacuous: no input reaches the end of the harness".into();
            } else {
                match ext.decide(&en.cx, "z3-new", &refs(&fin), fin.len()) {
                    smt::Answer::Sat(mdl) => {
                        witness_sat = true;
                        en.cx.add_model(mdl);
                    }
                    _ => {
                        verdict = "error".into();
                        detail = "vacuous: the solver finds no input that reaches the end".into();
                    }
                }
            }
        }
    }
    // sample inputs with the values the harness should observe on them
    let mut samples = vec![];
    if verdict == "ok" {
        let per = (a.samples / en.finals.len().max(1)).max(1);
        let mut fins = en.finals.clone();
        if fins.len() > a.samples {
            let step = fins.len() / a.samples + 1;
            fins = fins.into_iter().step_by(step).collect();
        }
        for (c, obs) in fins {
            en.model_of(c);
            let mut k = 0;
            'w: for w in en.cx.recent().rev() {
                let s = en.cx.sig(c, w);
                for i in 0..64 {
                    if s >> i & 1 == 1 {
                        let vals: Vec<u128> = (0..en.syms.len()).map(|j| { let e = en.syms[j].e; en.cx.eval_e(e, w, i) }).collect();
                        let ov: Vec<u128> = obs.iter().map(|e| en.cx.eval_e(*e, w, i)).collect();
                        samples.push((vals, ov));
                        k += 1;
                        if k >= per {
                            break 'w;
                        }
                    }
                }
            }
        }
    }
    en.print_prof();
    let nums = |v: &[u128]| v.iter().map(|x| (*x as u64 as i64).to_string()).collect::<Vec<_>>().join(",");
    let mut o = String::from("{\n");
    o.push_str(&format!(" \"harness\": {},\n \"verdict\": {},\n \"detail\": {},\n", js(&a.harness), js(&verdict), js(&detail)));
    if let Some(v) = &cex {
        o.push_str(&format!(" \"kind\": {},\n \"inputs\": [{}],\n", js(&v.kind), nums(&v.vals)));
    }
    o.push_str(&format!(" \"domains\": [{}],\n", en.syms.iter().map(|s| format!("[{},{}]", s.lo, s.hi)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!(" \"reached\": [{}],\n", en.reached.keys().map(|x| x.to_string()).collect::<Vec<_>>().join(",")));
    o.push_str(&format!(
        " \"steps\": {}, \"forks\": {}, \"merges\": {}, \"ends\": {}, \"panic_paths_allowed\": {}, \"max_loop_iterations\": {}, \"max_objects\": {},\n",
        en.stats.steps, en.stats.forks, en.stats.merges, en.stats.ends, en.stats.panics_ok, en.stats.max_iter, en.stats.max_objs
    ));
    o.push_str(&format!(
        " \"assertions\": {}, \"assertion_sites\": {}, \"refuted_checks\": {}, \"open_checks\": {}, \"refutations\": {},\n",
        en.asserts,
        en.assert_sites.len(),
        en.checks,
        en.open.len(),
        cores.len()
    ));
    o.push_str(&format!(
        " \"pruning_queries\": {}, \"pruning_sat\": {}, \"pruning_unsat\": {}, \"pruning_unknown\": {}, \"pruning_time\": {:.3},\n",
        en.stats.queries, en.stats.q_sat, en.stats.q_unsat, en.stats.q_unknown, en.stats.q_time
    ));
    o.push_str(&format!(
        " \"smt_queries\": {}, \"smt_time\": {:.3}, \"smt_wall\": {:.3}, \"smt_lines\": {}, \"smt_solvers\": {{{}}}, \"witness_sat\": {},\n",
        ext.queries,
        ext.time,
        ext.wall,
        ext.lines,
        ext.by.iter().map(|(k, v)| format!("{}: {:.3}", js(k), v)).collect::<Vec<_>>().join(","),
        witness_sat
    ));
    o.push_str(&format!(
        " \"lemmas\": {}, \"bool_nodes\": {}, \"word_nodes\": {}, \"bool_vars\": {}, \"word_vars\": {}, \"explore_time\": {:.3}, \"wall\": {:.3},\n",
        en.cx.lemmas.len(),
        en.cx.bn.len(),
        en.cx.en.len(),
        en.cx.nbv,
        en.cx.nev,
        t_explore,
        t0.elapsed().as_secs_f64()
    ));
    o.push_str(" \"functions\": [");
    o.push_str(&en.used.iter().map(|(n, (c, h))| format!("[{},{},\"{:016x}\"]", js(n), c, h)).collect::<Vec<_>>().join(","));
    o.push_str("],\n \"samples\": [");
    o.push_str(&samples.iter().map(|(v, ob)| format!("{{\"in\":[{}],\"obs\":[{}]}}", nums(v), nums(ob))).collect::<Vec<_>>().join(","));
    o.push_str("]\n}\n");
    if a.out.is_empty() {
        print!("{}", o);
    } else if std::fs::write(&a.out, &o).is_err() {
        return 66;
    }
    0
}
