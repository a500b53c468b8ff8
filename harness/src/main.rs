//! Replays and searches for concrete failing documents, with the specification scanners of the verifier as oracle.
//!
//! rt search PID SEED SECS TABLES DICT OUT   exit 0: nothing found, 1: failing document written to OUT
//! rt replay PID TABLES FILE                 exit 0: property holds on FILE, 1: it fails (reason on stdout)
use std::collections::HashMap;
use std::io::Write;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- coverage
static COV_START: AtomicUsize = AtomicUsize::new(0);
static COV_STOP: AtomicUsize = AtomicUsize::new(0);
static COV: Mutex<Vec<(usize, usize)>> = Mutex::new(Vec::new());

#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
	if let Ok(mut v) = COV.lock() {
		v.push((start as usize, stop as usize));
	}
	COV_START.store(start as usize, SeqCst);
	COV_STOP.store(stop as usize, SeqCst);
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_pcs_init(_a: *const usize, _b: *const usize) {}

struct Cov {
	seen: Vec<u8>,
	ranges: Vec<(usize, usize)>,
}
impl Cov {
	fn new() -> Cov {
		let mut ranges = COV.lock().unwrap().clone();
		ranges.sort();
		ranges.dedup();
		let n: usize = ranges.iter().map(|r| r.1 - r.0).sum();
		Cov { seen: vec![0; n], ranges }
	}
	fn reset(&self) {
		for &(a, b) in &self.ranges {
			unsafe { std::ptr::write_bytes(a as *mut u8, 0, b - a) }
		}
	}
	fn novel(&mut self) -> bool {
		let mut k = 0;
		let mut new = false;
		for &(a, b) in &self.ranges {
			for p in a..b {
				let c = unsafe { *(p as *const u8) };
				if c != 0 {
					let bit = 1u8 << (match c { 1 => 0, 2 => 1, 3 => 2, 4..=7 => 3, 8..=15 => 4, 16..=31 => 5, 32..=127 => 6, _ => 7 });
					if self.seen[k] & bit == 0 {
						self.seen[k] |= bit;
						new = true;
					}
				}
				k += 1;
			}
		}
		new
	}
}

// ---------------------------------------------------------------- oracle tables
struct Dfa {
	t: usize,
	names: Vec<String>,
	table: Vec<Vec<usize>>,
	ev: HashMap<(usize, usize), (usize, i64)>,
}
struct Tables {
	dfa: HashMap<String, Dfa>,
	elements: Vec<String>,
	ents: Vec<(String, char)>,
}
fn load(path: &str) -> Tables {
	let txt = std::fs::read_to_string(path).expect("tables");
	let mut t = Tables { dfa: HashMap::new(), elements: vec![], ents: vec![] };
	let mut cur = String::new();
	for l in txt.lines() {
		let w: Vec<&str> = l.split(' ').collect();
		match w[0] {
			"elements" => t.elements = w[1..].iter().map(|s| s.to_string()).collect(),
			"ent" => t.ents.push((w[1].to_string(), w[2].chars().next().unwrap())),
			"dfa" => {
				cur = w[1].to_string();
				t.dfa.insert(cur.clone(), Dfa { t: w[2].parse().unwrap(), names: vec![], table: vec![], ev: HashMap::new() });
			}
			"state" => {
				let d = t.dfa.get_mut(&cur).unwrap();
				d.names.push(w[1].to_string());
				d.table.push(w[2..].iter().map(|x| x.parse().unwrap()).collect());
			}
			"ev" => {
				let d = t.dfa.get_mut(&cur).unwrap();
				d.ev.insert((w[1].parse().unwrap(), w[2].parse().unwrap()), (w[3].parse().unwrap(), w[4].parse().unwrap()));
			}
			_ => {}
		}
	}
	t
}
impl Dfa {
	fn run(&self, s: &str) -> (usize, Option<usize>) {
		let mut q = self.t;
		let bad = self.names.iter().position(|n| n == "B").unwrap();
		for (i, c) in s.char_indices() {
			let k = if (c as u32) < 128 { c as usize } else { 128 };
			q = self.table[q][k];
			if q == bad {
				return (q, Some(i));
			}
		}
		(q, None)
	}
	fn counts(&self, s: &str, n: usize) -> Vec<i64> {
		let mut cnt = vec![0; n];
		let mut q = self.t;
		for c in s.chars() {
			let k = if (c as u32) < 128 { c as usize } else { 128 };
			let r = self.table[q][k];
			if let Some(&(e, d)) = self.ev.get(&(q, r)) {
				cnt[e] += d;
			}
			q = r;
		}
		cnt
	}
}

// ---------------------------------------------------------------- rendering with panic capture
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
fn render(doc: &str) -> Result<String, String> {
	std::panic::catch_unwind(|| gfm::Parser::render(doc)).map_err(|_| LAST_PANIC.lock().map(|s| s.clone()).unwrap_or_default())
}

fn around(s: &str, i: usize) -> String {
	let mut a = i.saturating_sub(40);
	while !s.is_char_boundary(a) { a -= 1 }
	let mut b = (i + 20).min(s.len());
	while !s.is_char_boundary(b) { b += 1 }
	s[a..b].to_string()
}

/// href/src values, located by the markup scanner
fn destinations(t: &Tables, out: &str) -> Vec<String> {
	let d = &t.dfa["markup"];
	let mut q = d.t;
	let mut res = vec![];
	let mut cur: Option<String> = None;
	let mut attr = String::new();
	for c in out.chars() {
		let k = if (c as u32) < 128 { c as usize } else { 128 };
		let r = d.table[q][k];
		let (a, b) = (&d.names[q], &d.names[r]);
		if a.starts_with("A:") { attr = a[2..].to_string() }
		if b == "Q" && a != "Q" && (attr == "href" || attr == "src") {
			cur = Some(String::new());
		} else if a == "Q" && b == "Q" {
			if let Some(s) = cur.as_mut() { s.push(c) }
		} else if a == "Q" && b != "Q" {
			if let Some(s) = cur.take() { res.push(s) }
		}
		if b == "B" { break }
		q = r;
	}
	res
}
fn decode(t: &Tables, s: &str) -> String {
	let mut o = String::new();
	let mut i = 0;
	while i < s.len() {
		let r = &s[i..];
		if r.starts_with('&') {
			if let Some(e) = r.find(';') {
				let n = &r[1..e];
				let mut v = t.ents.iter().find(|x| x.0 == n).map(|x| x.1);
				if v.is_none() && n.starts_with('#') {
					let m = &n[1..];
					let cp = if m.starts_with('x') || m.starts_with('X') { u32::from_str_radix(&m[1..], 16).ok() } else { m.parse().ok() };
					v = cp.and_then(char::from_u32);
				}
				if n == "colon" { v = Some(':') }
				if n == "Tab" { v = Some('\t') }
				if n == "NewLine" { v = Some('\n') }
				if let Some(c) = v {
					o.push(c);
					i += e + 1;
					continue;
				}
			}
		}
		let c = r.chars().next().unwrap();
		o.push(c);
		i += c.len_utf8();
	}
	o
}
fn bad_destination(t: &Tables, v: &str) -> Option<String> {
	let d = decode(t, v);
	let head: String = d.chars().take_while(|&c| c != ':' && c != '/' && c != '?' && c != '#' && c != '@' && c != '_').collect();
	let low = d.to_lowercase();
	if low.starts_with("javascript:") {
		return Some(format!("destination {:?} has the scheme javascript", v));
	}
	if low.starts_with("data:") && !low.starts_with("data:image/") && d != "data:," {
		return Some(format!("destination {:?} has the scheme data without image/", v));
	}
	if head.chars().any(|c| (c as u32) <= 32 || c as u32 == 127) {
		return Some(format!("destination {:?} has a blank or control character before its first colon", v));
	}
	None
}

fn plain_words(doc: &str) -> bool {
	!doc.is_empty() && doc.split(' ').all(|w| !w.is_empty() && w.chars().all(char::is_alphabetic))
}

fn check(pid: &str, t: &Tables, doc: &str) -> Option<String> {
	let out = match render(doc) {
		Ok(o) => o,
		Err(e) => return if pid == "C03" { Some(format!("panic: {}", e)) } else { None },
	};
	match pid {
		"C01" => {
			let d = &t.dfa["markup"];
			let (q, at) = d.run(&out);
			if let Some(i) = at {
				return Some(format!("output leaves the renderer's repertoire at byte {}: ...{:?}", i, around(&out, i)));
			}
			if q != d.t { return Some("output ends inside a tag".into()) }
			None
		}
		"C02" => destinations(t, &out).iter().find_map(|v| bad_destination(t, v)),
		"C05" => {
			let d = &t.dfa["markup"];
			if d.run(&out).1.is_some() { return None }
			let c = d.counts(&out, t.elements.len());
			c.iter().position(|&x| x != 0).map(|k| format!("{} more <{}> than </{}> tags", c[k], t.elements[k], t.elements[k]))
		}
		"C06" => {
			for (e, ch) in &t.ents {
				let s = format!("&{};", e);
				if !doc.contains(*ch) && out.contains(&s) {
					return Some(format!("output contains {} but the document has no {:?}", s, ch));
				}
			}
			let mut i = 0;
			while let Some(p) = out[i..].find('&') {
				let r = &out[i + p + 1..];
				if !t.ents.iter().any(|(e, _)| r.starts_with(e.as_str()) && r[e.len()..].starts_with(';')) {
					return Some(format!("unescaped & in the output: ...{:?}", around(&out, i + p)));
				}
				i += p + 1;
			}
			None
		}
		"C07" => {
			let mut net = [0i64; 10];
			for (i, _) in out.match_indices("<") {
				let r = &out[i..];
				let (cl, r) = if r.starts_with("</h") { (true, &r[3..]) } else if r.starts_with("<h") { (false, &r[2..]) } else { continue };
				let mut cs = r.chars();
				let (a, b) = (cs.next().unwrap_or(' '), cs.next().unwrap_or(' '));
				if a == 'r' { continue }
				if !('1'..='6').contains(&a) || !(b == '>' || b == ' ' && !cl) {
					return Some(format!("heading level outside 1 to 6: {:?}", out[i..].chars().take(8).collect::<String>()));
				}
				net[a as usize - '0' as usize] += if cl { -1 } else { 1 };
			}
			net.iter().position(|&x| x != 0).map(|k| format!("{} more <h{}> than </h{}> tags", net[k], k, k))
		}
		"C09" => {
			if !plain_words(doc) { return None }
			let want = format!("<p>{}</p>\n", doc);
			if out != want { return Some(format!("rendered as {:?}, expected {:?}", out, want)) }
			None
		}
		_ => None,
	}
}

// ---------------------------------------------------------------- generators
struct Rng(u64);
impl Rng {
	fn next(&mut self) -> u64 {
		self.0 ^= self.0 << 13;
		self.0 ^= self.0 >> 7;
		self.0 ^= self.0 << 17;
		self.0.wrapping_mul(0x2545F4914F6CDD1D)
	}
	fn below(&mut self, n: usize) -> usize { (self.next() >> 33) as usize % n.max(1) }
	fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
}
const TEXT: &[&str] = &["a", "b c", "word", "é", "日本", "\u{1F600}", "<b>", "\"", "'", "&", "&lt;", "<script>x</script>", "\">x<i a=\"", "[x]", "{x}", "x|y", "\\", "~", "(x)", "*", "_", "`", "#", "##", "", " ", "  ", "\t", "\n", "\n\n", "%", "%22", "$", "!", "@", "^", "[^1]", "[^a b]", "]", "[", ":", "-", "+", "0", "9", "1. x", ">", "<", "/>", "ſ", "K", "\r", "\r\n", "\u{0}", "\u{7f}", "\u{a0}", "\u{2028}", "{#id}", "{#", "}", "=", "\" onload=\"x", "' x='"];
const URLS: &[&str] = &["http://a.b/c", "/x", "x", "", "javascript:alert(1)", "JavaScript:x", "JAVASCRIPT:x", "data:image/png,x", "data:text/html,x", "DATA:x", "data:", "data:,", "mailto:a@b", "a@b.c", "a@b@c", "a\\@b", "irc:x", "ftp:x", "a:b:c", "data:x:image/", "x:javascript:y", "javascript:@x", "data:text@x", "http:x@y:z", "java\tscript:x", "java\nscript:x", "\u{1}javascript:x", " javascript:x", "javascript&colon;x", "javascript&#58;x", "&#106;avascript:x", "x\"y", "x<y>", "x&y", "x'y", "é:x", "a+b:c", "java script:", "//x", "#x", "?x", ":", ":x", "::", "x:", "vbscript:x", "data:image/svg+xml,<svg>", "data:image", "data:Image/x", "javascript", "data", "jAvAsCrIpT:/*@*/x", "http:javascript:x", "HTTP://x", "mailto:data:x@y", "0:x", "-:x"];
const FORMS: &[&str] = &["# T", "## T", "### T", "#### T", "##### T", "###### T", "####### T", "#T", "# T #", "# T ##", "# T {#T}", "#\tT", "- T", "+ T", "* T", "_ T", "- T\n  T", "- T\n\tT", "- T\n\n\tT", "- T\n\n\t\tT", "-T", "1. T", "2. T", "1.T", "12. T", "- [ ] T", "- [x] T", "- [X] T", "> T", ">> T", ">>> T", ">\tT", ">T", "*T*", "_T_", "**T**", "__T__", "***T***", "___T___", "**T*", "***T**", "*T", "~~T~~", "~T~", "~~T", "~~~T~~~", "`T`", "``T``", "```T\nT\n```", "```\nT\n```", "```T", "``T`", "[T](U)", "[T](U T)", "[T](U \"T\")", "[T]", "[T](", "[T](U", "![T](U)", "![T](U T)", "![T]", "!T", "![T](", "<U>", "<T>", "<T", "<details>\n<summary>T</summary>\nT</details>", "<details>\n<summary>T</summary>\nT", "<details>\nT", "<details>\n<summary>T\nT</details>", "<details>\n<summary>T</summary>\n<details>\n<summary>T</summary>\nT</details>\nT</details>", "<details>\r\n<summary>T</summary>\r\nT</details>", "|T|T|\n|---|:-:|\n|T|T|", "|T|\n|:--|\n|T|\n|T|", "|T|T|\n|-|-|\n|T|", "|T|\n|-|\n|T|\n\nT", "|T", "[^T]: T", "[^T]: T\n  T", "[^T]: T\n    T\n    T", "[^T]", "T[^T]", "    T", "\tT", "\t\tT", "  \tT", "   T", "     T", "\t\t\tT", "---", "***", "___", "+++", "*\t*\t*", "-----", "T\n", "T\n\n", "T  \n", "\\T", "\\", "\\#T", "T", "T T", "T\nT", "T\n===", "\n", "\n\n", "***\n", "-", "+", "#", "######", "\u{feff}T"];

struct Gen {
	rng: Rng,
	dict: Vec<String>,
	nums: Vec<usize>,
	corpus: Vec<String>,
}
impl Gen {
	fn text(&mut self, depth: usize) -> String {
		match self.rng.below(12) {
			0..=3 => self.rng.pick(TEXT).to_string(),
			4 => self.dict_word(),
			5 if depth > 0 => self.form(depth - 1),
			6 => { let a = self.text(0); let b = self.text(0); a + &b }
			7 => { let n = self.nums[self.rng.below(self.nums.len())]; let s = self.rng.pick(TEXT).to_string(); s.chars().take(1).collect::<String>().repeat(n.min(300)) }
			8 => self.chars(),
			9 if depth > 0 => { let a = self.text(depth - 1); let b = self.text(depth - 1); a + " " + &b }
			_ => ["a", "ab", "word", "x y"][self.rng.below(4)].to_string(),
		}
	}
	fn dict_word(&mut self) -> String {
		if self.dict.is_empty() { return "x".into() }
		let k = self.rng.below(self.dict.len());
		self.dict[k].clone()
	}
	fn chars(&mut self) -> String {
		const A: &[char] = &['#', '*', '_', '-', '+', '>', '<', '~', '`', '[', ']', '(', ')', '!', '|', '\\', '\n', '\t', ' ', 'a', 'é', '1', '.', ':', '^', '&', '"', '\'', '{', '}', '@', '/', '\r', '日', '😀', 'x'];
		let n = 1 + self.rng.below(8);
		(0..n).map(|_| *self.rng.pick(A)).collect()
	}
	fn url(&mut self) -> String {
		match self.rng.below(8) {
			0..=4 => self.rng.pick(URLS).to_string(),
			5 => { let a = self.rng.pick(URLS).to_string(); let b = self.rng.pick(URLS).to_string(); a + &b }
			6 => { let a = self.rng.pick(URLS).to_string(); let b = self.text(0); a + &b }
			_ => {
				let mut a: Vec<char> = self.rng.pick(URLS).chars().collect();
				let k = self.rng.below(a.len() + 1);
				let c = self.chars().chars().next().unwrap();
				a.insert(k, c);
				a.into_iter().collect()
			}
		}
	}
	fn form(&mut self, depth: usize) -> String {
		let f = self.rng.pick(FORMS).to_string();
		let mut o = String::new();
		for c in f.chars() {
			match c {
				'T' => { let s = self.text(depth); o.push_str(&s) }
				'U' => { let s = self.url(); o.push_str(&s) }
				_ => o.push(c),
			}
		}
		o
	}
	fn doc(&mut self) -> String {
		let n = 1 + if self.rng.below(3) == 0 { self.rng.below(6) } else { self.rng.below(3) };
		let mut s = String::new();
		for i in 0..n {
			if i > 0 { s.push_str(["\n", "\n\n", " ", "", "\n\n\n"][self.rng.below(5)]) }
			let f = if self.rng.below(5) == 0 { self.text(2) } else { self.form(2) };
			s.push_str(&f);
		}
		s
	}
	fn mutate(&mut self, d: &str) -> String {
		let mut c: Vec<char> = d.chars().collect();
		for _ in 0..1 + self.rng.below(4) {
			let k = self.rng.below(c.len() + 1);
			match self.rng.below(9) {
				0 => { if k < c.len() { c.remove(k); } }
				1 => { let s = self.chars(); let x = s.chars().next().unwrap(); c.insert(k, x) }
				2 => { let s = self.text(1); for (j, x) in s.chars().enumerate() { c.insert(k + j, x) } }
				3 => { let s = self.dict_word(); for (j, x) in s.chars().enumerate() { c.insert(k + j, x) } }
				4 => { let e = (k + self.rng.below(10)).min(c.len()); c.drain(k..e); }
				5 => { let e = (k + self.rng.below(8)).min(c.len()); let m: Vec<char> = c[k..e].to_vec(); let r = 1 + self.rng.below(3); for _ in 0..r { for (j, x) in m.iter().enumerate() { c.insert(k + j, *x) } } }
				6 => { c.truncate(k) }
				7 => { if k < c.len() { let n = self.nums[self.rng.below(self.nums.len())]; let x = c[k]; for _ in 0..n.min(120) { c.insert(k, x) } } }
				_ => { if k < c.len() { let s = self.chars(); c[k] = s.chars().next().unwrap() } }
			}
		}
		if self.rng.below(6) == 0 && !self.corpus.is_empty() {
			let j = self.rng.below(self.corpus.len());
			let o = self.corpus[j].clone();
			let o: Vec<char> = o.chars().collect();
			let a = self.rng.below(c.len() + 1);
			let b = self.rng.below(o.len() + 1);
			c.truncate(a);
			c.extend_from_slice(&o[b..]);
		}
		c.truncate(1500);
		c.into_iter().collect()
	}
	fn words(&mut self) -> String {
		const L: &[&str] = &["a", "b", "Z", "é", "ß", "日", "я", "x", "q", "ſ", "K", "ﬁ", "ا", "I", "l", "o", "ǆ"];
		let n = 1 + self.rng.below(9);
		let mut v = vec![];
		for _ in 0..n {
			let k = if self.rng.below(10) == 0 { self.nums[self.rng.below(self.nums.len())] % 200 + 1 } else { 1 + self.rng.below(7) };
			if self.rng.below(3) == 0 {
				let w: String = self.dict_word().chars().filter(|c| c.is_alphabetic()).collect();
				if !w.is_empty() { v.push(w); continue }
			}
			v.push((0..k).map(|_| *self.rng.pick(L)).collect::<String>());
		}
		v.join(" ")
	}
	fn headings(&mut self) -> String {
		let n = 1 + self.rng.below(4);
		let mut v = vec![];
		for _ in 0..n {
			let k = self.rng.below(9);
			let w = self.words();
			v.push(if k == 0 { w } else { "#".repeat(k) + " " + &w });
		}
		v.join("\n\n")
	}
}

// ---------------------------------------------------------------- watchdog
static TICK: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<String> = Mutex::new(String::new());
const HANG_S: u64 = 4;

fn watchdog(pid: String, out: String) {
	std::thread::spawn(move || {
		let mut last = (0, Instant::now());
		loop {
			std::thread::sleep(Duration::from_millis(200));
			let t = TICK.load(SeqCst);
			if t != last.0 {
				last = (t, Instant::now());
			} else if t > 0 && last.1.elapsed().as_secs() >= HANG_S {
				let d = CURRENT.lock().unwrap().clone();
				if pid == "C04" {
					save(&out, &pid, &d, &format!("rendering did not finish within {} s", HANG_S));
					std::process::exit(1);
				}
				std::process::exit(3);
			}
		}
	});
}
fn tick(d: &str) {
	*CURRENT.lock().unwrap() = d.to_string();
	TICK.fetch_add(1, SeqCst);
}
fn save(out: &str, pid: &str, doc: &str, why: &str) {
	let mut f = std::fs::File::create(out).unwrap();
	let _ = writeln!(f, "{} {}", pid, why.replace('\n', "\\n"));
	let _ = f.write_all(doc.as_bytes());
	println!("FOUND {}", why.replace('\n', "\\n"));
}

fn minimise(pid: &str, t: &Tables, doc: &str) -> String {
	let mut c: Vec<char> = doc.chars().collect();
	let mut w = c.len() / 2;
	let t0 = Instant::now();
	while w > 0 {
		let mut i = 0;
		while i < c.len() && t0.elapsed().as_secs() < 5 {
			let mut d = c.clone();
			let e = (i + w).min(d.len());
			d.drain(i..e);
			let s: String = d.iter().collect();
			tick(&s);
			if check(pid, t, &s).is_some() { c = d } else { i += w }
		}
		w /= 2;
	}
	c.into_iter().collect()
}

struct Nul;
impl log::Log for Nul {
	fn enabled(&self, _: &log::Metadata) -> bool { true }
	fn log(&self, r: &log::Record) { let _ = format!("{}", r.args()); }
	fn flush(&self) {}
}
static NUL: Nul = Nul;

fn purity(gen: &mut Gen, secs: f64, out: &str) -> i32 {
	let t0 = Instant::now();
	let _ = log::set_logger(&NUL);
	log::set_max_level(log::LevelFilter::Off);
	let mut first: Vec<(String, String)> = vec![];
	let levels = [log::LevelFilter::Off, log::LevelFilter::Error, log::LevelFilter::Warn, log::LevelFilter::Info, log::LevelFilter::Debug, log::LevelFilter::Trace];
	let ls = |p: &str| { let mut v: Vec<_> = std::fs::read_dir(p).map(|d| d.filter_map(|e| e.ok()).map(|e| (e.file_name(), e.metadata().map(|m| m.len()).unwrap_or(0))).collect()).unwrap_or_default(); v.sort(); v };
	let cwd = std::env::current_dir().unwrap();
	let dir0 = ls(".");
	let env0: Vec<_> = std::env::vars_os().collect();
	let mut n = 0u64;
	let mut envs: Vec<String> = ["HOME", "LANG", "TZ", "RUST_LOG", "USER", "LC_ALL", "PATH", "TERM", "NO_COLOR", "DEBUG"].iter().map(|s| s.to_string()).collect();
	// whatever in the source looks like the name of a variable
	envs.extend(gen.dict.iter().filter(|s| s.len() > 1 && s.bytes().all(|b| b == b'_' || b.is_ascii_alphanumeric())).cloned());
	while t0.elapsed().as_secs_f64() < secs {
		let d = match gen.rng.below(4) { 0 => gen.words(), 1 => gen.text(2), _ => gen.doc() };
		log::set_max_level(levels[gen.rng.below(if first.len() < 40 { 1 } else { 6 })]);
		tick(&d);
		let Ok(o) = render(&d) else { continue };
		n += 1;
		if first.len() < 4000 || gen.rng.below(50) == 0 { first.push((d.clone(), o.clone())) }
		if gen.rng.below(20) == 0 {
			let k = envs[gen.rng.below(envs.len())].clone();
			let v = ["", "C", "1", "debug", "de_DE.UTF-8"][gen.rng.below(5)];
			unsafe { std::env::set_var(k, v) }
		}
		let k = gen.rng.below(first.len());
		let (d2, o2) = first[k].clone();
		let again = if n % 16 == 0 {
			let d3 = d2.clone();
			std::thread::Builder::new().stack_size(64 << 20).spawn(move || render(&d3)).unwrap().join().unwrap_or(Err(String::new()))
		} else {
			render(&d2)
		};
		if again.as_ref().ok() != Some(&o2) {
			save(out, "C08", &d2, &format!("rendered once as {:?} and later in the same process as {:?}", o2, again));
			return 1;
		}
	}
	for (k, v) in env0 { unsafe { std::env::set_var(k, v) } }
	if std::env::current_dir().unwrap() != cwd || ls(".") != dir0 {
		save(out, "C08", "", "rendering changed the working directory or the files in it");
		return 1;
	}
	println!("documents {} distinct {}", n, first.len());
	0
}

fn search(a: &[String]) -> i32 {
	let (pid, seed, secs, out) = (&a[0], a[1].parse::<u64>().unwrap(), a[2].parse::<f64>().unwrap(), &a[5]);
	let t = load(&a[3]);
	let dict_txt = std::fs::read_to_string(&a[4]).unwrap_or_default();
	let mut dict = vec![];
	let mut nums: Vec<usize> = vec![1, 2, 3, 4, 5, 6, 7, 8, 16, 31, 32, 33, 34, 64, 255, 256];
	for l in dict_txt.lines() {
		if let Some(n) = l.strip_prefix("n ") {
			if let Ok(n) = n.parse::<usize>() { for x in [n.saturating_sub(1), n, n + 1] { if x <= 300 { nums.push(x) } } }
		} else if let Some(h) = l.strip_prefix("s ") {
			let b: Vec<u8> = (0..h.len() / 2).filter_map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect();
			if let Ok(s) = String::from_utf8(b) { dict.push(s) }
		}
	}
	watchdog(pid.clone(), out.clone());
	let mut gen = Gen { rng: Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1), dict, nums, corpus: vec![] };
	for _ in 0..10 { gen.rng.next(); }
	if pid == "C08" { return purity(&mut gen, secs, out) }
	let mut cov = Cov::new();
	let t0 = Instant::now();
	let mut n = 0u64;
	// short documents, exhaustively, in an order that depends on the seed
	const A: &[&str] = &["#", "*", "_", "-", "+", ">", "<", "~", "`", "[", "]", "(", ")", "!", "|", "\\", "\n", "\t", " ", "a", "é", "1", ".", ":", "^", "&", "\"", "'", "{", "}", "@", "\r"];
	let mut ex = seed as usize;
	while t0.elapsed().as_secs_f64() < secs {
		let d = if pid == "C09" {
			gen.words()
		} else {
			match gen.rng.below(10) {
				0 => {
					ex = ex.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
					let mut x = ex >> 12;
					let len = 1 + (ex >> 8) % 5;
					let mut s = String::new();
					for _ in 0..len { s.push_str(A[x % A.len()]); x /= A.len() }
					s
				}
				1..=3 => gen.doc(),
				4 if pid == "C07" => gen.headings(),
				4 if pid == "C06" => gen.doc().replace('&', ""),
				4 => gen.form(1),
				_ if gen.corpus.is_empty() => gen.doc(),
				_ => { let j = gen.rng.below(gen.corpus.len()); let d = gen.corpus[j].clone(); gen.mutate(&d) }
			}
		};
		if d.len() > 4000 { continue }
		n += 1;
		tick(&d);
		cov.reset();
		let r = check(pid, &t, &d);
		if cov.novel() && gen.corpus.len() < 5000 { gen.corpus.push(d.clone()) }
		if let Some(_) = r {
			let m = minimise(pid, &t, &d);
			let why = check(pid, &t, &m).unwrap_or_default();
			save(out, pid, &m, &why);
			return 1;
		}
		if pid == "C06" && d.contains('&') {
			// the same document without ampersands shows double escapes
			let e = d.replace('&', "");
			tick(&e);
			if check(pid, &t, &e).is_some() {
				let m = minimise(pid, &t, &e);
				let why = check(pid, &t, &m).unwrap_or_default();
				save(out, pid, &m, &why);
				return 1;
			}
		}
	}
	println!("documents {} distinct {}", n, gen.corpus.len());
	0
}

fn main() {
	std::panic::set_hook(Box::new(|i| {
		if let Ok(mut s) = LAST_PANIC.lock() { *s = i.to_string().replace('\n', " ") }
	}));
	let a: Vec<String> = std::env::args().skip(1).collect();
	let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || match a[0].as_str() {
		"search" => search(&a[1..]),
		"replay" => {
			let t = load(&a[2]);
			let b = std::fs::read(&a[3]).unwrap();
			let k = b.iter().position(|&c| c == b'\n').unwrap_or(0);
			let doc = String::from_utf8(b[k + 1..].to_vec()).unwrap();
			watchdog(a[1].clone(), "/dev/null".into());
			tick(&doc);
			match check(&a[1], &t, &doc) {
				Some(w) => { println!("FAILS {}", w); 1 }
				None => { println!("holds"); 0 }
			}
		}
		_ => 2,
	}).unwrap();
	std::process::exit(h.join().unwrap_or(2));
}
