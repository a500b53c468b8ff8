//! Calls the real library functions one at a time, for the run-time scenarios of C11, C13 and C14.
use smd_core::{config::Config, convert, fs};
use std::path::PathBuf;

fn done<T, E: std::fmt::Display>(r: Result<T, E>) -> i32 {
	match r {
		Ok(_) => { println!("ok"); 0 }
		Err(e) => { println!("err {}", e); 1 }
	}
}

fn main() {
	let a: Vec<String> = std::env::args().skip(1).collect();
	let p = |i: usize| PathBuf::from(&a[i]);
	let code = match a[0].as_str() {
		"write-text" => done(fs::write_to_file(&p(1), &std::fs::read_to_string(&a[2]).unwrap())),
		"write-bytes" => done(fs::write_bytes(&p(1), &std::fs::read(&a[2]).unwrap())),
		"render" => { std::fs::write(&a[2], gfm::Parser::render(&std::fs::read_to_string(&a[1]).unwrap())).unwrap(); 0 }
		"init" => done(Config::initialize()),
		"load" => match Config::load_config() {
			Ok(c) => { println!("{:?}", c); 0 }
			Err(e) => { println!("err {}", e); 1 }
		},
		"default" => { println!("{:?}", Config::default()); 0 }
		"pdf" => {
			let html = std::fs::read_to_string(&a[1]).unwrap();
			let r = convert::convert_html::<convert::PDFConverter>(&html);
			if let Ok(b) = &r { std::fs::write(&a[2], b).unwrap() }
			done(r)
		}
		_ => 9,
	};
	std::process::exit(code);
}
