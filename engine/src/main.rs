mod exec;
mod ir;
mod smt;
mod term;

fn esc(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
			c => o.push(c),
		}
	}
	o.push('"');
	o
}
fn hex(b: &[u8]) -> String {
	b.iter().map(|x| format!("{x:02x}")).collect()
}
fn list<X>(it: impl IntoIterator<Item = X>, f: impl Fn(X) -> String) -> String {
	format!("[{}]", it.into_iter().map(f).collect::<Vec<_>>().join(","))
}

extern "C" {
	fn mallopt(p: i32, v: i32) -> i32;
}

fn main() {
	// keep freed memory: states are cloned and dropped constantly
	unsafe {
		mallopt(-3, 1 << 30);
		mallopt(-1, i32::MAX);
		mallopt(-2, 64 << 20);
		mallopt(-8, 1);
	}
	let mut file = None;
	let mut harness = None;
	let (mut secs, mut qms, mut steps, mut cap) = (300u64, 20000u32, 5_000_000u64, 500_000u32);
	let mut real_fmt = false;
	let mut it = std::env::args().skip(1);
	while let Some(a) = it.next() {
		let mut num = || it.next().unwrap().parse::<u64>().unwrap();
		match a.as_str() {
			"--time" => secs = num(),
			"--query-ms" => qms = num() as u32,
			"--steps" => steps = num(),
			"--real-fmt" => real_fmt = true,
			"--loop-cap" => cap = num() as u32,
			_ if file.is_none() => file = Some(a),
			_ => harness = Some(a),
		}
	}
	let (file, harness) = (file.expect("ll file"), harness.expect("harness"));
	let run = move || {
		let t0 = std::time::Instant::now();
		let text: &'static str = Box::leak(std::fs::read_to_string(&file).expect("read ll").into_boxed_str());
		let m = ir::Module::load(text);
		let load = t0.elapsed();
		let mut e = exec::Exec::new(m, qms, secs, steps, cap);
		e.real_fmt = real_fmt;
		if let Err(x) = e.run(&harness) {
			eprintln!("{x}");
			std::process::exit(2);
		}
		let s = &e.st;
		println!("{{");
		println!(" \"harness\":{},", esc(&harness));
		println!(" \"solver\":{},", esc(&e.smt.version));
		println!(" \"wall_s\":{:.3},\"load_s\":{:.3},", t0.elapsed().as_secs_f64(), load.as_secs_f64());
		println!(
			" \"paths\":{},\"assumed_away\":{},\"huge_alloc\":{},\"panics_allowed\":{},\"forks\":{},\"steps\":{},\"asserts\":{},\"uninit_reads\":{},\"max_depth\":{},\"input_bytes\":{},\"max_loop_iterations\":{},",
			s.paths, s.assumed, s.huge, s.panics_allowed, s.forks, s.steps, s.asserts, s.uninit_reads, s.max_depth, s.max_inputs, s.max_visits
		);
		println!(
			" \"queries\":{},\"queries_sat\":{},\"queries_unsat\":{},\"queries_unknown\":{},\"queries_cached\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},",
			e.smt.queries,
			e.smt.sat,
			e.smt.unsat,
			e.smt.unknown,
			e.smt.cached,
			e.smt.time.as_secs_f64(),
			e.smt.max_query.as_secs_f64()
		);
		println!(" \"covers\":{{{}}},", e.covers.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
		println!(" \"inconclusive\":{{{}}},", e.inconcl.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
		println!(" \"functions\":{},", list(&e.funcs_run, |f| esc(f)));
		println!(
			" \"violations\":{},",
			list(&e.viols, |v| format!(
				"{{\"kind\":{},\"msg\":{},\"inputs\":\"{}\",\"stack\":{},\"observed\":{}}}",
				esc(&v.kind),
				esc(&v.msg),
				hex(&v.inputs),
				list(&v.stack, |f| esc(f)),
				list(&v.obs, |x| x.to_string())
			))
		);
		println!(" \"samples\":{}", list(&e.samples, |(i, o)| format!("[\"{}\",{}]", hex(i), list(o, |x| x.to_string()))));
		println!("}}");
	};
	std::thread::Builder::new().stack_size(512 << 20).spawn(run).unwrap().join().unwrap();
}
