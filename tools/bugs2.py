"""Planted bugs of C11-C15 (see mkbug.py)"""
F = 'smd-core/src/fs.rs'; G = 'smd-core/src/config.rs'; V = 'smd-core/src/convert.rs'; R = 'smd/src/lib.rs'; M = 'smd/src/main.rs'; W = 'smd-core/src/browser.rs'
PRE = '''#![allow(unused)]
use std::{env, fs, path::PathBuf, process::Command};
fn cli(a: &[&str]) -> i32 {
	Command::new(env::var("SMD").unwrap()).args(a).stderr(std::process::Stdio::null()).status().unwrap().code().unwrap_or(-1)
}
fn main() {
	let d = env::current_dir().unwrap();
'''
def D(body):
    return PRE + body + '\n}\n'
BUGS = [
 dict(id='c11-bufwriter', property='C11', dep='io', edits=[(F, '''	let mut file = File::create(path)?;
	match file.write_all(content.as_bytes()) {''', '''	let mut file = std::io::BufWriter::new(File::create(path)?);
	match file.write_all(content.as_bytes()) {''')],
   needs='a device that is full when the last buffered bytes are flushed on drop', breaks='the error of the implicit flush is lost: success is reported and the file is empty',
   demo=D('''	std::os::unix::fs::symlink("/dev/full", d.join("out")).unwrap();
	assert!(smd_core::fs::write_to_file(&d.join("out"), "some text").is_err());''')),
 dict(id='c11-no-truncate', property='C11', dep='io', edits=[(F, '''	let mut file = File::create(path)?;
	match file.write_all(bytes) {''', '''	let mut file = fs::OpenOptions::new().write(true).create(true).open(path)?;
	match file.write_all(bytes) {''')],
   needs='an existing output file that is longer than the new contents', breaks='the tail of the old file stays behind the new contents',
   demo=D('''	fs::write(d.join("out"), "a much longer old file").unwrap();
	smd_core::fs::write_bytes(&d.join("out"), &b"new".to_vec()).unwrap();
	assert_eq!(fs::read(d.join("out")).unwrap(), b"new");''')),
 dict(id='c12-bom', property='C12', dep='io', edits=[(R, '''			let result = gfm::Parser::render(&content);''', '''			let result =
				gfm::Parser::render(content.trim_start_matches(char::is_control));''')],
   needs='a document that starts with control characters (blank lines)', breaks='the output is the rendering of other contents than those of the file',
   demo=D('''	let t = "\\u{1}\\u{2}x";
	fs::write(d.join("a.md"), t).unwrap();
	assert_eq!(cli(&["parse", "-i", "a.md", "-o", "html"]), 0);
	assert_eq!(fs::read_to_string(d.join("a.html")).unwrap(), gfm::Parser::render(t));''')),
 dict(id='c12-lossy', property='C12', dep='io', edits=[(R, '''			let mut out_path = args.input.clone();''', '''			let mut out_path = std::path::PathBuf::from(
				args.input.to_string_lossy().to_lowercase(),
			);''')],
   needs='a file or folder name with upper-case letters', breaks='the rendering goes to a different file, which may exist already',
   demo=D('''	fs::write(d.join("Notes.md"), "x").unwrap();
	fs::write(d.join("notes.html"), "mine").unwrap();
	cli(&["parse", "-i", "Notes.md", "-o", "html"]);
	assert!(d.join("Notes.html").exists());
	assert_eq!(fs::read_to_string(d.join("notes.html")).unwrap(), "mine");''')),
 dict(id='c13-unreadable-init', property='C13', dep='io', edits=[(G, '''		if path.exists() {
			return''', '''		if fs::read_to_string(&path).is_ok() {
			return''')],
   needs='an existing configuration file that is not valid UTF-8', breaks='initialising overwrites the existing configuration file',
   demo=D('''	fs::create_dir_all(d.join("cfg/smd")).unwrap();
	fs::write(d.join("cfg/smd/config.toml"), b"# caf\\xe9").unwrap();
	let _ = smd_core::config::Config::initialize();
	assert_eq!(fs::read(d.join("cfg/smd/config.toml")).unwrap(), b"# caf\\xe9");''')),
 dict(id='c13-ignore-unreadable', property='C13', dep='io', edits=[(G, '''		if config_path.exists() {
			let content = fs::read_to_string(&config_path)?;
			let''', '''		if let Ok(content) = fs::read_to_string(&config_path) {
			let''')],
   needs='a configuration file that exists but cannot be read as text', breaks='the configuration is silently replaced by the defaults',
   demo=D('''	fs::create_dir_all(d.join("cfg/smd/config.toml")).unwrap();
	assert!(smd_core::config::Config::load_config().is_err());''')),
 dict(id='c14-print-fallback', property='C14', dep='io', chrome=1, edits=[(V, '''		let converted = browser.print_to_pdf(&tab_id, options)?;

		Ok(converted)''', '''		let converted = browser
			.print_to_pdf(&tab_id, options)
			.unwrap_or_else(|_| html.as_bytes().to_vec());

		Ok(converted)''')],
   needs='a browser that opens the page but fails to print it', breaks='success is reported with bytes that the browser never printed',
   demo=D('''	env::set_var("FAKE_MODE", "printfail");
	assert!(smd_core::convert::convert_html::<smd_core::convert::PDFConverter>("<p>x</p>").is_err());''')),
 dict(id='c14-copy', property='C14', dep='io', chrome=1, edits=[(W, '''		let html_file_path = current_dir.join(path);
		let file_url = format!("file://{}", html_file_path.to_string_lossy());

		let tab = self.0.new_tab().map_err(|_| {
			Error::BrowserError("Failed to open new tab.".to_string())
		})?;
''', '''		let html_file_path = current_dir.join(path).with_extension("xhtml");
		std::fs::copy(current_dir.join(path), &html_file_path)?;
		let file_url = format!("file://{}", html_file_path.to_string_lossy());

		let tab = self.0.new_tab().map_err(|_| {
			Error::BrowserError("Failed to open new tab.".to_string())
		})?;
'''), (W, '''				"Failed to wait until navigation is done.".to_string(),
			)
		})?;
''', '''				"Failed to wait until navigation is done.".to_string(),
			)
		})?;
		std::fs::remove_file(&html_file_path)?;
''')],
   needs='a browser that fails to open the page, or an existing file tmp.xhtml', breaks='a second temporary file stays behind when navigation fails',
   demo=D('''	env::set_var("FAKE_MODE", "navfail");
	assert!(smd_core::convert::convert_html::<smd_core::convert::PDFConverter>("<p>x</p>").is_err());
	assert!(!d.join("tmp.xhtml").exists());''')),
 dict(id='c15-browser-zero', property='C15', dep='io', edits=[(M, '''		Err(e) => {
			log::error!("{}", e);
			1
		}''', '''		Err(e) => {
			log::error!("{}", e);
			e.to_string().len() as i32 & 0xff & !1
		}''')],
   needs='an error whose message happens to have a length that maps to zero', breaks='the exit status of a failed command is sometimes 0',
   demo=D('''	for k in 0..300 {
		let n = format!("{}.html", "x".repeat(k % 200 + 1));
		fs::write(d.join(&n), "x").unwrap();
		assert_ne!(cli(&["parse", "-i", &n, "-o", "html"]), 0, "{}", n);
	}''')),
 dict(id='c15-write-pdf', property='C15', dep='io', chrome=1, edits=[(R, '''			fs::write_bytes(&out_path, &converted)?;''', '''			if fs::write_bytes(&out_path, &converted).is_err() && converted.is_empty() {
				return Err(Error::CustomError("empty document".to_string()));
			}''')],
   needs='a PDF whose output file cannot be written', breaks='the failed write is ignored, the command exits with 0',
   demo=D('''	fs::write(d.join("a.md"), "x").unwrap();
	fs::create_dir_all(d.join("a.pdf")).unwrap();
	assert_ne!(cli(&["parse", "-i", "a.md"]), 0);''')),
]
