use monitor::*;

#[global_allocator]
static ALLOC: mon::Counting = mon::Counting;

fn main() {
	keccak::self_test();
	let args: Vec<String> = std::env::args().collect();
	let arg = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
	let code = match arg(1) {
		"check" => run::check(arg(2)),
		"worker" => run::worker(&args[2..]),
		"replay" => run::replay(arg(2)),
		"fresh" => p_state::fresh(arg(2).parse().unwrap_or(1), arg(3).parse().unwrap_or(0)),
		"miri" => run::in_process(arg(2).parse().unwrap_or(1), arg(3).parse().unwrap_or(1)),
		"literals" => {
			dict::write_literals();
			0
		}
		"list" => {
			for p in props::PROPS {
				println!("{}", p.id);
			}
			0
		}
		_ => {
			eprintln!("usage: monitor check <property> | replay <file>");
			2
		}
	};
	std::process::exit(code);
}
