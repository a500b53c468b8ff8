def R(body):
    return 'fn main() {\n\tlet r = |d: &str| gfm::Parser::render(d);\n' + body + '\n}\n'
L='gfm/src/lib.rs'; X='gfm/src/lexer.rs'; T='gfm/src/token.rs'; I='gfm/src/iter.rs'
BUGS = [
 dict(id='c01-task-unchecked', property='C01', edits=[(L,'''class=\\"task-list-item-checkbox\\">{}</li>",
								Self::sanitize_display_text(t)''','''class=\\"task-list-item-checkbox\\">{}</li>",
								t''')],
   needs='an unchecked task list item whose text contains markup', breaks='document markup reaches the output unescaped',
   demo=R('\tassert!(!r("- [ ] <script>x</script>\\n").contains("<script"));')),
 dict(id='c01-alt-empty-src', property='C01', edits=[(L,'''"<p><img src=\\"data:,\\" alt=\\"{text}\\"></p>",
							text = Self::sanitize_display_text(t)''','''"<p><img src=\\"data:,\\" alt=\\"{text}\\"></p>",
							text = t''')],
   needs='an image with an empty destination and a quote in its text', breaks='image text can leave its attribute and add an event handler',
   demo=R('\tassert!(!r("![x\\" onerror=\\"alert(1)]()").contains("\\" onerror"));')),
 dict(id='c01-sanitize-order', property='C01', edits=[(L,"""			.replace('<', "&lt;")
			.replace('>', "&gt;")
			.replace('"', "&quot;")
			.replace('\\'', "&apos;")""","""			.replace("<", "&lt;")
			.replace('>', "&gt;")
			.replace("\\"\\"", "&quot;&quot;")
			.replace("=\\"", "=&quot;")
			.replace('\\'', "&apos;")""")],
   needs='text with a single double quote not after = in an attribute position (image text, link title, footnote id)', breaks='a lone double quote ends the attribute value',
   demo=R('\tlet o = r("![a\\" b](x)"); assert!(!o.contains("a\\" b"), "{}", o);')),
 dict(id='c02-case', property='C02', edits=[(T,'if scheme.to_lowercase() == "javascript" ||','if scheme.trim_end_matches(char::is_uppercase) == "javascript" ||')],
   needs='a destination with scheme JavaScript in another letter case', breaks='javascript: destinations reach href',
   demo=R('\tassert!(!r("[x](JavaScript:alert)").to_lowercase().contains("href=\\"javascript:"));')),
 dict(id='c02-data-image', property='C02', edits=[(T,'if scheme.to_lowercase() == "data" && !path.starts_with(":image/") {','if scheme.to_lowercase() == "data" && !path.contains(":image/") {')],
   needs='a data: destination that mentions :image/ later on', breaks='data: destinations of any media type reach href/src',
   demo=R('\tassert!(!r("[x](data:text/html,:image/y)").contains("href=\\"data:text"));')),
 dict(id='c02-len', property='C02', edits=[(T,'''	if scheme.len() != 0 && (scheme.len() < 2 || scheme.len() > 32) {
		return Err(SanitizationError { content: source });
	}''',''''''),(T,'''	let (scheme, path) = source.split_at(source.find(':').unwrap_or(0));''','''	let (scheme, path) = source.split_at(source.rfind(':').unwrap_or(0));
	if scheme.len() != 0 && (scheme.len() < 2 || scheme.len() > 32) {
		return Err(SanitizationError { content: source });
	}''')],
   needs='a javascript: destination with a second colon', breaks='the scheme check looks at the last colon only',
   demo=R('\tassert!(!r("[x](javascript:a:b)").contains("href=\\"javascript:"));')),
 dict(id='c03-table-rows', property='C03', edits=[(X,'''		if lines.len() < 3 {''','''		if lines.len() < 2 {''')],
   needs='a table without body rows', breaks='rows[0] is out of range: rendering panics',
   demo=R('\tr("|a|\\n|-|\\n");')),
 dict(id='c03-task-slice', property='C03', edits=[(X,'''		if line.starts_with(" [ ] ") {
			Ok(Token::TaskListItem(
				TaskBox::Unchecked,
				line[5..].to_string(),''','''		if line.starts_with(" [ ]") {
			Ok(Token::TaskListItem(
				TaskBox::Unchecked,
				line[5..].to_string(),''')],
   needs='a task list box at the very end of its line, or followed by a multi-byte character', breaks='slice out of range or inside a character',
   demo=R('\tr("- [ ]");\n\tr("- [ ]é");')),
 dict(id='c03-peek-end', property='C03', edits=[(I,'''			None if self.peek().is_some() => {
				self.the_str.get(self.index..=(self.the_str.len() - 1))
			}
			_ => None,
		}
	}

	pub fn consume_line_ahead''','''			None => self.the_str.get(self.index..=(self.the_str.len() - 1)),
		}
	}

	pub fn consume_line_ahead'''),(I,'''	pub fn find_next(&self, pattern: &str) -> Option<usize> {
		self.the_str[self.index..].find(pattern)''','''	pub fn find_next(&self, pattern: &str) -> Option<usize> {
		let from = self.index.saturating_sub(1);
		self.the_str[from..].find(pattern).map(|i| i + from - self.index)''')],
   needs='a list entry after a multi-byte character', breaks='slicing inside a character or integer underflow',
   demo=R('\tr("- é");\n\tr("é- a\\nb");\n\tr("- a\\n");\n\tr("- a\\nb\\n");')),
 dict(id='c05-details-par', property='C05', edits=[(L,'''					if in_paragraph {
						html.push_str("</p>\\n");
						in_paragraph = false;
					}
					let inner_html''','''					if in_paragraph {
						html.push_str("</p>\\n");
					}
					let inner_html''')],
   needs='a details block after paragraph text', breaks='</p> is written twice',
   demo=R('\tlet o = r("a\\n<details>\\n<summary>s</summary>\\nx</details>\\n"); assert_eq!(o.matches("<p>").count(), o.matches("</p>").count(), "{}", o);')),
 dict(id='c05-quote-diff', property='C05', edits=[(L,'''							let diff = quote_level - l;
							quote_level = *l;
							for _i in 0..diff {
								html.push_str("</blockquote>");''','''							let diff = quote_level - l;
							quote_level = *l;
							for _i in 0..diff.min(2) {
								html.push_str("</blockquote>");''')],
   needs='a quote of level 4 or more followed by one at least three levels lower', breaks='blockquote elements stay open',
   demo=R('\tlet o = r(">>>> a\\n> b\\n"); assert_eq!(o.matches("<blockquote>").count(), o.matches("</blockquote>").count(), "{}", o);')),
 dict(id='c05-ordered-close', property='C05', edits=[(L,'''				_ if in_ordered_list => {
					in_ordered_list = false;
					html.push_str("</ol>\\n");
					if !in_paragraph {''','''				_ if in_ordered_list => {
					in_ordered_list = in_unordered_list;
					html.push_str("</ol>\\n");
					if !in_paragraph {''')],
   needs='an ordered list that follows directly after an unordered list, then other content', breaks='</ol> is written twice',
   demo=R('\tfor d in ["- a\\n1. b\\n---\\nx", "- a\\n1. b\\n# x\\n", "1. a\\n- b\\n---\\n"] { let o = r(d); assert_eq!(o.matches("<ol>").count(), o.matches("</ol>").count(), "{}", o); }')),
 dict(id='c06-list', property='C06', edits=[(L,'''						format!(
							"<li>\\n{}</li>\\n",
							Self::sanitize_display_text(t)
						)''','''						format!(
							"<li>\\n{}</li>\\n",
							Self::sanitize_display_text(&t.replace('<', "&lt;"))
						)''')],
   needs='an ordered list entry that contains <', breaks='< is shown as &lt;',
   demo=R('\tassert!(!r("1. a < b\\n").contains("&amp;"));')),
 dict(id='c06-heading', property='C06', edits=[(X,'''		Ok(Token::Header(hashes.len(), parsed_line, None))''','''		if parsed_line.is_empty() {
			return Ok(Token::Header(hashes.len(), Parser::sanitize_display_text(line), None));
		}
		Ok(Token::Header(hashes.len(), parsed_line, None))'''),(L,'''								"<h{level}>{text}</h{level}>\\n",
								level = l,
								text = t
''','''								"<h{level}>{text}</h{level}>\\n",
								level = l,
								text = if t.starts_with('<') { t.clone() } else { t.replace("&gt;", "&amp;gt;") }
''')],
   needs='a heading with > in its text', breaks='> is escaped twice in headings',
   demo=R('\tassert!(!r("# a > b\\n").contains("&amp;"));')),
 dict(id='c07-empty', property='C07', edits=[(X,'''			return Ok(Token::Header(hashes.len(), "".to_string(), None));''','''			return Ok(Token::Header(hashes.len() + line.len(), "".to_string(), None));''')],
   needs='a heading whose text consists of # characters only', breaks='level 1 to 6 is exceeded or does not match the number of #',
   demo=R('\tlet o = r("##### ####\\n"); assert!(o.contains("<h5>"), "{}", o);')),
 dict(id='c07-close', property='C07', edits=[(L,'''								"<h{level}>{text}</h{level}>\\n",
								level = l,
								text = t
''','''								"<h{level}>{text}</h{last}>\\n",
								level = l,
								last = if t.is_empty() { &1 } else { l },
								text = t
''')],
   needs='an empty heading of level 2 or more', breaks='closed by an end tag of another level',
   demo=R('\tlet o = r("## \\n"); assert!(!o.contains("</h1>"), "{}", o);')),
 dict(id='c08-counter', property='C08', edits=[(L,'''						let mut count: usize = 1;''','''						static SEEN: std::sync::atomic::AtomicUsize =
							std::sync::atomic::AtomicUsize::new(0);
						let mut count: usize = 1 +
							SEEN.fetch_add(
								1,
								std::sync::atomic::Ordering::Relaxed,
							);'''),(L,'''								count += 1;''','''								count = count.wrapping_add(1);''')],
   needs='rendering two documents with footnote references in one process', breaks='footnote numbers depend on earlier renderings',
   demo=R('\tassert_eq!(r("\\\\[^a]"), r("\\\\[^a]"));\n\tlet d = "a [^1]"; let a = r(d); let b = r(d); assert_eq!(a, b);')),
 dict(id='c08-loglevel', property='C08', edits=[(X,'''			debug!("Processing character: {:?}", self.iter.peek());''','''			if log::log_enabled!(log::Level::Debug) &&
				self.iter.peek() == Some("\\r")
			{
				debug!("Skipping character: {:?}", self.iter.next());
				continue;
			}''')],
   needs='a carriage return in the document and debug logging', breaks='the output depends on the log level',
   demo='struct N;\nimpl log::Log for N { fn enabled(&self, _: &log::Metadata) -> bool { true } fn log(&self, _: &log::Record) {} fn flush(&self) {} }\nstatic L: N = N;\nfn main() {\n\tlet d = "a\\rb"; let a = gfm::Parser::render(d); log::set_logger(&L).unwrap(); log::set_max_level(log::LevelFilter::Trace); let b = gfm::Parser::render(d); assert_eq!(a, b);\n}\n'),
 dict(id='c04-until', property='C04', edits=[(I,'''		while self.peek().is_some() &&
			!self
				.the_str
				.get(start_index..self.index)
				.unwrap_or(tail)
				.ends_with(tail)
		{
			//unwrap_or(tail) to ensure exit in unforseen situation
			self.next();
		}''','''		while self.index < self.the_str.len() &&
			!self
				.the_str
				.get(start_index..self.index)
				.unwrap_or(tail)
				.ends_with(tail)
		{
			//unwrap_or(tail) to ensure exit in unforseen situation
			if self.next_if_eq("\\0").is_none() {
				self.skip_while_true(|c| c == "\\u{b}" || c == "\\u{c}");
				if self.peek() != Some("\\u{b}\\u{c}") && self.peek() != Some("\\u{7f}") {
					self.next();
				}
			}
		}''')],
   needs='a DEL character inside a code span', breaks='the loop stops making progress',
   demo='fn main() { gfm::Parser::render("`a\\u{7f}`"); }\n'),
 dict(id='c04-detail', property='C04', edits=[(X,'''		let inner_tokens = Parser::lex(
			remaining_text.strip_suffix("</details>").unwrap_or(""),
			&[],
		);''','''		let inner_tokens = Parser::lex(
			remaining_text.strip_suffix("</details>").unwrap_or_else(|| {
				self.iter
					.get_substring_from(
						remaining_text_index.saturating_sub(
							summary_line.len() + 29,
						),
					)
					.unwrap_or("")
			}),
			&[],
		);''')],
   needs='an unterminated details block', breaks='the same text is lexed again and again: unbounded recursion',
   demo='fn main() { gfm::Parser::render("<details>\\n<summary>s</summary>\\nx"); }\n'),
]
