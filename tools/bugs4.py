L, X, T, I = 'gfm/src/lib.rs', 'gfm/src/lexer.rs', 'gfm/src/token.rs', 'gfm/src/iter.rs'


def R(body):
    return 'fn r(s: &str) -> String { gfm::Parser::render(s) }\nfn main() {\n' + body + '\n}\n'


BUGS = [
 dict(id='c07-wrap', property='C07', edits=[(X,'''		if hashes.len() > 6 {
			return Err''','''		if hashes.len() as u8 > 6 {
			return Err''')],
   needs='a line starting with 256 or more # characters and a blank', breaks='a heading of level 257',
   demo=R('\tlet o = r(&("#".repeat(258) + " x\\n")); assert!(!o.contains("<h258"), "{}", o);')),
 dict(id='c07-demote', property='C07', edits=[(L,'''							&Self::render(t.trim_start_matches(" "))
								.replace("\\t", "  "),''','''							&Self::render(t.trim_start_matches(" "))
								.replace("<h4>", "<h5>")
								.replace("\\t", "  "),''')],
   needs='a heading of level 4 inside a block quote', breaks='an h5 closed by an h4 end tag',
   demo=R('\tlet o = r("> #### x\\n"); assert_eq!(o.matches("<h5>").count(), o.matches("</h5>").count(), "{}", o); assert!(o.contains("</h4>"), "{}", o);')),
 dict(id='c07-long', property='C07', edits=[(L,'''								"<h{level}>{text}</h{level}>\\n",
								level = l,
								text = t
''','''								"<h{level}>{text}</h{close}>\\n",
								level = l,
								close = (*l).min(t.len() + 1),
								text = t
''')],
   needs='a heading whose text is shorter than its level', breaks='closed by an end tag of another level',
   demo=R('\tlet o = r("###### ab\\n"); assert!(o.contains("</h6>"), "{}", o);')),
 dict(id='c01-truncate', property='C01', edits=[(L,'''								"<h{level}>{text}</h{level}>\\n",
								level = l,
								text = t
''','''								"<h{level}>{text:.120}</h{level}>\\n",
								level = l,
								text = t
''')],
   needs='a heading with long text and a link at the cut', breaks='a tag is cut in two',
   demo=R('\tfor n in 0..120 { let o = r(&("# ".to_string() + &"a".repeat(n) + " [x](http://y.z/w)\\n")); let i = o.matches("<a href=").count(); assert_eq!(i, o.matches("</a>").count(), "{}", o); }')),
]
