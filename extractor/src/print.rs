//! Token printer with line structure; expands the hook placeholders.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub trait Hooks {
    /// text for a statement hook
    fn stmt(&mut self, id: &str) -> String;
    /// text of the loop invariants of loop id
    fn inv(&mut self, id: &str) -> String;
}

pub struct P<'a> {
    pub out: String,
    pub ind: usize,
    pub hooks: &'a mut dyn Hooks,
}

impl<'a> P<'a> {
    fn nl(&mut self) {
        while self.out.ends_with(' ') {
            self.out.pop();
        }
        self.out.push('\n');
        for _ in 0..self.ind {
            self.out.push_str("    ");
        }
    }
    fn sp(&mut self) {
        if !self.out.ends_with(' ') && !self.out.ends_with('\n') {
            self.out.push(' ');
        }
    }
    pub fn ts(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        let mut joint = false;
        while i < v.len() {
            // placeholders
            if let TokenTree::Ident(id) = &v[i] {
                let s = id.to_string();
                if (s == "__vxh" || s == "__vxit") && i + 2 < v.len() {
                    if let (TokenTree::Punct(p), TokenTree::Group(g)) = (&v[i + 1], &v[i + 2]) {
                        if p.as_char() == '!' {
                            if s == "__vxh" {
                                let t = self.hooks.stmt(&g.stream().to_string());
                                if !t.trim().is_empty() {
                                    self.nl();
                                    self.out.push_str(t.trim_end());
                                    self.nl();
                                }
                                i += 3;
                                // swallow following ;
                                if let Some(TokenTree::Punct(p)) = v.get(i) {
                                    if p.as_char() == ';' {
                                        i += 1;
                                    }
                                }
                            } else {
                                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                                // name , expr
                                self.sp();
                                self.out.push_str(&format!("{} : ", inner[0]));
                                let rest: TokenStream = inner[2..].iter().cloned().collect();
                                self.ts(rest);
                                i += 3;
                            }
                            joint = false;
                            continue;
                        }
                    }
                }
            }
            match &v[i] {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    if g.delimiter() == Delimiter::Brace {
                        let mut inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        // loop invariants
                        if inner.len() >= 3 {
                            if let (TokenTree::Ident(a), TokenTree::Punct(_), TokenTree::Group(k)) =
                                (&inner[0], &inner[1], &inner[2])
                            {
                                if a == "__vxinv" {
                                    let t = self.hooks.inv(&k.stream().to_string());
                                    self.nl();
                                    self.out.push_str(t.trim_end());
                                    self.nl();
                                    let skip = if matches!(inner.get(3), Some(TokenTree::Punct(p)) if p.as_char()==';') { 4 } else { 3 };
                                    inner.drain(0..skip);
                                }
                            }
                        }
                        self.sp();
                        self.out.push('{');
                        self.ind += 1;
                        self.nl();
                        self.ts(inner.into_iter().collect());
                        self.ind -= 1;
                        self.nl();
                        self.out.push('}');
                        // newline after } unless followed by , ; ) . else ?
                        match v.get(i + 1) {
                            Some(TokenTree::Punct(p)) if ",;.?".contains(p.as_char()) => {}
                            Some(TokenTree::Ident(id)) if id == "else" => {}
                            None => {}
                            _ => self.nl(),
                        }
                    } else {
                        if !joint {
                            // keep call parens tight
                        }
                        self.out.push_str(o);
                        self.ts(g.stream());
                        self.out.push_str(c);
                    }
                    joint = false;
                }
                TokenTree::Ident(id) => {
                    if !joint {
                        self.sp();
                    }
                    self.out.push_str(&id.to_string());
                    joint = false;
                }
                TokenTree::Literal(l) => {
                    if !joint {
                        self.sp();
                    }
                    self.out.push_str(&l.to_string());
                    joint = false;
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    if c == ';' {
                        self.out.push(';');
                        if i + 1 < v.len() {
                            self.nl();
                        }
                        joint = false;
                    } else if c == '\'' {
                        self.sp();
                        self.out.push(c);
                        joint = true;
                    } else {
                        if !joint && c != ',' && c != '.' && c != '?' {
                            self.sp();
                        }
                        self.out.push(c);
                        if p.spacing() == Spacing::Joint {
                            joint = true;
                        } else {
                            joint = false;
                            if c == ',' {
                                self.out.push(' ');
                            }
                            if c == '.' || c == '&' || c == '!' {
                                joint = true;
                            }
                        }
                        // path separators stay tight
                        if self.out.ends_with("::") {
                            joint = true;
                        }
                    }
                }
            }
            i += 1;
        }
    }
}
