//! Token printer: one statement per line, remembers the source line of each output line, and
//! puts loop annotations between a loop header and its body.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub struct Printer<'a> {
    pub lines: Vec<(String, usize)>,
    cur: String,
    cur_line: usize,
    depth: usize,
    pub loops: &'a dyn Fn(usize) -> Option<String>,
    /// (output line index relative, template text) of loop annotations printed
    pub loop_spans: Vec<(usize, usize, usize)>,
}

impl<'a> Printer<'a> {
    pub fn new(loops: &'a dyn Fn(usize) -> Option<String>) -> Self {
        Printer { lines: vec![], cur: String::new(), cur_line: 0, depth: 1, loops, loop_spans: vec![] }
    }
    pub fn flush(&mut self) {
        if !self.cur.trim().is_empty() {
            let s = format!("{}{}", "    ".repeat(self.depth), self.cur.trim_end());
            self.lines.push((s, self.cur_line));
        }
        self.cur.clear();
        self.cur_line = 0;
    }
    fn put(&mut self, s: &str, line: usize) {
        if self.cur_line == 0 && line > 1 {
            self.cur_line = line;
        }
        self.cur.push_str(s);
    }
    pub fn stream(&mut self, ts: TokenStream) {
        let toks: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < toks.len() {
            let line = toks[i].span().start().line;
            match &toks[i] {
                TokenTree::Group(g) => match g.delimiter() {
                    Delimiter::Brace => {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        let mut skip = 0;
                        if let Some(TokenTree::Ident(id)) = inner.first() {
                            if id == "vx_loop_marker" {
                                if let Some(TokenTree::Group(n)) = inner.get(2) {
                                    let k: usize = n.stream().to_string().parse().unwrap();
                                    skip = 4;
                                    if let Some(t) = (self.loops)(k) {
                                        self.flush();
                                        let st = self.lines.len();
                                        for l in t.lines() {
                                            self.lines.push((l.to_string(), 0));
                                        }
                                        self.loop_spans.push((k, st, self.lines.len()));
                                    }
                                }
                            }
                        }
                        self.put("{", line);
                        self.flush();
                        self.depth += 1;
                        self.stream(inner.into_iter().skip(skip).collect());
                        self.flush();
                        self.depth -= 1;
                        self.put("} ", 0);
                        let cont = match toks.get(i + 1) {
                            Some(TokenTree::Punct(p)) => matches!(p.as_char(), ';' | ',' | '.' | '?' | ')'),
                            Some(TokenTree::Ident(id)) => id == "else",
                            Some(TokenTree::Group(_)) => true,
                            _ => false,
                        };
                        if !cont {
                            self.flush();
                        }
                    }
                    d => {
                        let (o, c) = match d {
                            Delimiter::Parenthesis => ("(", ")"),
                            Delimiter::Bracket => ("[", "]"),
                            _ => ("", ""),
                        };
                        self.put(o, line);
                        self.stream(g.stream());
                        self.put(c, 0);
                        self.put(" ", 0);
                    }
                },
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    if matches!(c, ';' | ',' | '.' | '?' | ':') && self.cur.ends_with(' ') {
                        self.cur.pop();
                    }
                    self.put(&c.to_string(), line);
                    if p.spacing() == Spacing::Alone && !matches!(c, '.' | '&' | '!' | '#' | '\'') {
                        self.put(" ", 0);
                    }
                    if c == ';' {
                        self.flush();
                    }
                }
                TokenTree::Ident(id) => {
                    self.put(&id.to_string(), line);
                    self.put(" ", 0);
                }
                TokenTree::Literal(l) => {
                    self.put(&l.to_string(), line);
                    self.put(" ", 0);
                }
            }
            i += 1;
        }
    }
}
