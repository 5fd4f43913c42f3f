//! llsym: bounded symbolic execution of LLVM IR produced by rustc, with z3 deciding every branch and assertion.
mod exec;
mod expr;
mod ir;
mod mem;
mod parse;
mod z3;
use std::fmt::Write;
use std::time::Duration;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut file = None;
    let mut entry = "harness_main".to_string();
    let mut arg = 0u64;
    let mut out = None;
    let mut timeout = 20_000u32;
    let mut src = String::new();
    let mut o = exec::Opts { max_time: Duration::from_secs(600), max_steps: 200_000_000, max_paths: u64::MAX, part: (0, 1), trace: false, all: false, concrete: None, witness: 0 };
    let mut i = 0;
    while i < args.len() {
        let nx = |i: &mut usize| -> String { *i += 1; args[*i].clone() };
        match args[i].as_str() {
            "--entry" => entry = nx(&mut i),
            "--arg" => arg = nx(&mut i).parse().unwrap(),
            "--out" => out = Some(nx(&mut i)),
            "--max-time" => o.max_time = Duration::from_secs(nx(&mut i).parse().unwrap()),
            "--max-steps" => o.max_steps = nx(&mut i).parse().unwrap(),
            "--max-paths" => o.max_paths = nx(&mut i).parse().unwrap(),
            "--solver-timeout" => timeout = nx(&mut i).parse().unwrap(),
            "--part" => { let s = nx(&mut i); let (a, b) = s.split_once('/').unwrap(); o.part = (a.parse().unwrap(), b.parse().unwrap()); }
            "--src" => src = nx(&mut i),
            "--trace" => o.trace = true,
            "--witness" => o.witness = nx(&mut i).parse().unwrap(),
            "--all" => o.all = true,
            "--concrete" => { let s = std::fs::read_to_string(nx(&mut i)).unwrap(); o.concrete = Some(s.split_whitespace().map(|x| x.parse().unwrap()).collect()); }
            f => file = Some(f.to_string()),
        }
        i += 1;
    }
    let text = match std::fs::read(file.as_deref().expect("file")) { Ok(t) => String::from_utf8_lossy(&t).into_owned(), Err(e) => { eprintln!("{e}"); std::process::exit(3); } };
    let run = || -> Result<exec::Exec, String> {
        let t = std::time::Instant::now();
        let m = parse::Module::load(text)?;
        if o.trace { eprintln!("loaded in {:?}: {} functions, {} globals", t.elapsed(), m.fns.len(), m.globals.len()); }
        let z = z3::Z3::new(timeout)?;
        let mut x = exec::Exec::new(m, z, o);
        let s = x.initial(&entry, arg)?;
        x.t0 = std::time::Instant::now();
        x.work.push(s);
        x.run();
        Ok(x)
    };
    let x = match run() { Ok(x) => x, Err(e) => { eprintln!("llsym: {e}"); std::process::exit(3); } };
    let s = &x.stats;
    let mut j = String::new();
    let _ = write!(j, "{{\"paths\":{},\"completed\":{},\"infeasible\":{},\"violating\":{},\"errors\":{},\"instructions\":{},\"forks\":{},\"assertions\":{},\"assertions_trivial\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"linear\":{},\"cache_hits\":{},\"solver_s\":{:.3},\"wall_s\":{:.3},\"solver\":{},\"max_path_constraints\":{},\"max_inputs\":{}",
        s.paths, s.ended, s.infeasible, s.violated, s.errors, s.instrs, s.forks, s.asserts, s.assert_trivial, x.z3.checks, x.z3.sat, x.z3.unsat, x.z3.linear, s.cache_hits, x.z3.time.as_secs_f64(), x.t0.elapsed().as_secs_f64(), esc(&format!("z3 {}", x.z3.version)), s.max_pc, s.max_inputs);
    j.push_str(",\"error_list\":{");
    for (k, (e, n)) in x.errors.iter().enumerate() { let _ = write!(j, "{}{}:{}", if k > 0 { "," } else { "" }, esc(e), n); }
    j.push_str("},\"covers\":{");
    for (k, (e, n)) in x.covers.iter().enumerate() { let _ = write!(j, "{}{}:{}", if k > 0 { "," } else { "" }, esc(e), n); }
    j.push_str("},\"asserts\":{");
    for (k, (e, n)) in x.assert_msgs.iter().enumerate() { let _ = write!(j, "{}{}:{}", if k > 0 { "," } else { "" }, esc(e), n); }
    j.push_str("},\"stubs\":[");
    for (k, e) in x.stubs.iter().enumerate() { let _ = write!(j, "{}{}", if k > 0 { "," } else { "" }, esc(e)); }
    j.push_str("],\"violations\":[");
    for (k, v) in x.violations.iter().enumerate() {
        let _ = write!(j, "{}{{\"kind\":{},\"msg\":{},\"stack\":[{}],\"log\":[{}],\"inputs\":[{}]}}", if k > 0 { "," } else { "" }, esc(&v.kind), esc(&v.msg),
            v.stack.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","), v.log.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
            v.inputs.iter().map(|(n, w, x)| format!("[{},{},\"{}\"]", esc(n), w, x)).collect::<Vec<_>>().join(","));
    }
    j.push_str("],\"witnesses\":[");
    for (k, (v, c)) in x.witnesses.iter().enumerate() {
        let _ = write!(j, "{}{{\"inputs\":[{}],\"covers\":[{}]}}", if k > 0 { "," } else { "" },
            v.iter().map(|(n, w, x)| format!("[{},{},\"{}\"]", esc(n), w, x)).collect::<Vec<_>>().join(","), c.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
    }
    j.push_str("],\"functions\":{");
    let cov = x.coverage(&|f| src.is_empty() || f.contains(&src));
    if !src.is_empty() {
        for (k, ((f, n), l)) in cov.iter().enumerate() {
            let _ = write!(j, "{}{}:[{}]", if k > 0 { "," } else { "" }, esc(&format!("{f}: {n}")), l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
        }
    }
    j.push_str("}}");
    match out { Some(f) => std::fs::write(f, j).unwrap(), None => println!("{j}") }
}
