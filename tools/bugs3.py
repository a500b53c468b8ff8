L, X, T, I = 'gfm/src/lib.rs', 'gfm/src/lexer.rs', 'gfm/src/token.rs', 'gfm/src/iter.rs'


def R(body):
    return 'fn r(s: &str) -> String { gfm::Parser::render(s) }\nfn main() {\n' + body + '\n}\n'


BUGS = [
 dict(id='c08-loglevel', property='C08', edits=[(X,'''			debug!("Processing character: {:?}", self.iter.peek());''','''			if log::log_enabled!(log::Level::Debug) &&
				self.iter.peek() == Some("\\r")
			{
				debug!("Skipping character: {:?}", self.iter.next());
				continue;
			}''')],
   needs='a carriage return in the document and debug logging', breaks='the output depends on the log level',
   demo='struct N;\nimpl log::Log for N { fn enabled(&self, _: &log::Metadata) -> bool { true } fn log(&self, _: &log::Record) {} fn flush(&self) {} }\nstatic L: N = N;\nfn main() {\n\tlet d = "a\\rb"; let a = gfm::Parser::render(d); log::set_logger(&L).unwrap(); log::set_max_level(log::LevelFilter::Trace); let b = gfm::Parser::render(d); assert_eq!(a, b);\n}\n'),
 dict(id='c08-memo', property='C08', edits=[(T,'''	source
		.replace('%', "%25")''','''	static MEMO: std::sync::Mutex<Option<(String, String)>> =
		std::sync::Mutex::new(None);
	if let Ok(memo) = MEMO.lock() {
		if let Some((key, value)) = memo.as_ref() {
			if key.len() == source.len() && key.ends_with(source.trim_start_matches('/')) {
				return value.clone();
			}
		}
	}
	let encoded = source
		.replace('%', "%25")'''),(T,'''		.replace('>', "%3E")
}

/// Holds the possible states''','''		.replace('>', "%3E");
	if let Ok(mut memo) = MEMO.lock() {
		*memo = Some((source.to_string(), encoded.clone()));
	}
	encoded
}

/// Holds the possible states''')],
   needs='two links of the same length that differ in leading slashes, one after the other', breaks='a link is rendered with the address of an earlier rendering',
   demo=R('\tlet d = "[a](//bc.de/f)"; let a = r(d); r("[a](/xbc.de/f)"); r("[a](xxbc.de/f)"); r("[z](http:a/bc.de/f)"); let b = r(d); assert_eq!(a, b);\n\tlet d = "[a](///x.de)"; let a = r(d); r("[a](zzzx.de)"); let b = r(d); assert_eq!(a, b);\n\tfor k in ["aax.de", "/ax.de", "a/x.de", "ab/x.d"] { r(&format!("[a]({})", k)); assert_eq!(r("[a](//x.de)"), r("[a](//x.de)")); }\n\tlet fresh = r("[q](b/x.de)"); let _ = fresh; r("[a](http://ax.de)"); let u = r("[a](http:///x.de)"); r("[a](irc://zz)"); assert_eq!(u, r("[a](http:///x.de)"));')),
 dict(id='c08-env', property='C08', edits=[(X,'''			debug!("Processing character: {:?}", self.iter.peek());''','''			if ch == "\\t" && std::env::var_os("NO_TABS").is_some() {
				self.iter.next();
				continue;
			}''')],
   needs='a tab in the document and NO_TABS in the environment', breaks='the output depends on the environment',
   demo=R('\tlet d = "a b\\tc"; let a = r(d); unsafe { std::env::set_var("NO_TABS", "1") }; let b = r(d); assert_eq!(a, b);')),
]
