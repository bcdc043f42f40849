#![allow(dead_code, unused_imports, unused_macros)]
mod ast;
mod capture;
mod fw;
mod props;
mod qubo;

use fw::*;
use std::path::Path;

fn find(id: &str) -> Property {
	match props::all().into_iter().find(|p| p.id == id) {
		Some(p) => p,
		None => {
			eprintln!("no property {id}");
			std::process::exit(3)
		}
	}
}

fn main() {
	install_panic_hook();
	let args: Vec<String> = std::env::args().skip(1).collect();
	let seed: u64 = std::env::var("VERIF_SEED")
		.ok()
		.and_then(|s| s.parse().ok())
		.unwrap_or(1);
	let code = match args.first().map(|s| s.as_str()) {
		Some("check") if args.len() >= 3 => {
			let tier = match args[2].as_str() {
				"thorough" => Tier::Thorough,
				_ => Tier::Quick,
			};
			parent(&find(&args[1]), tier, seed)
		}
		Some("worker") if args.len() >= 5 => {
			let tier = match args[2].as_str() {
				"thorough" => Tier::Thorough,
				_ => Tier::Quick,
			};
			worker(
				&find(&args[1]),
				tier,
				args[3].parse().unwrap(),
				Path::new(&args[4]),
			)
		}
		Some("replay") if args.len() >= 2 => replay(Path::new(&args[1])),
		Some("list") => {
			for p in props::all() {
				println!("{}", p.id);
			}
			0
		}
		_ => {
			eprintln!("usage: rqverif check ID quick|thorough | replay FILE | list");
			3
		}
	};
	std::process::exit(code);
}

fn replay(p: &Path) -> i32 {
	let v: serde_json::Value =
		fw::parse_json(&std::fs::read_to_string(p).expect("replay file")).expect("json");
	let prop = find(v["property"].as_str().unwrap());
	let legname = v["leg"].as_str().unwrap().to_string();
	// A stack as large as the shards have.
	std::thread::Builder::new()
		.stack_size(256 << 20)
		.spawn(move || {
			let Some(leg) = prop.legs.iter().find(|l| l.name() == legname) else {
				eprintln!("no leg {legname}");
				return 3;
			};
			match leg.replay(&v["case"]) {
				Ok(()) => {
					println!("replay: property {} holds on this case", prop.id);
					0
				}
				Err(e) => {
					println!("replay: property {} fails: {e}", prop.id);
					1
				}
			}
		})
		.unwrap()
		.join()
		.unwrap_or(3)
}
