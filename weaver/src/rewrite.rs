//! The mechanical rewrites of executable text. Each works on the text of one function, finds its
//! target in the syntax tree and replaces exactly that piece of text.
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use std::collections::BTreeMap;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

pub type Edit = (std::ops::Range<usize>, String, &'static str);

#[derive(Clone, Debug)]
pub struct MacroDef { pub params: Vec<String>, pub body: String }

pub fn rng<T: Spanned>(t: &T) -> std::ops::Range<usize> { t.span().byte_range() }

/// parse `macro_rules!` definitions with one arm whose parameters are `$x: expr`
pub fn parse_macro(tokens: &TokenStream, text: &str) -> Option<MacroDef> {
    let tts: Vec<TokenTree> = tokens.clone().into_iter().collect();
    let (m, b) = match (&tts.get(0)?, tts.last().map(|_| ())) {
        (TokenTree::Group(m), _) => {
            let mut b = None;
            for t in &tts[1..] { if let TokenTree::Group(g) = t { b = Some(g.clone()); break; } }
            (m.clone(), b?)
        }
        _ => return None,
    };
    let mut params = vec![];
    let ps: Vec<TokenTree> = m.stream().into_iter().collect();
    let mut i = 0;
    while i < ps.len() {
        if let TokenTree::Punct(p) = &ps[i] {
            if p.as_char() == '$' { if let Some(TokenTree::Ident(id)) = ps.get(i + 1) { params.push(id.to_string()); } }
        }
        i += 1;
    }
    let r = b.span().byte_range();
    let inner = text[r.start + 1..r.end - 1].to_string();
    Some(MacroDef { params, body: inner })
}
pub fn file_macros(text: &str, file: &syn::File) -> BTreeMap<String, MacroDef> {
    struct V<'a> { text: &'a str, out: BTreeMap<String, MacroDef> }
    impl<'a, 'ast> Visit<'ast> for V<'a> {
        fn visit_item_macro(&mut self, m: &'ast syn::ItemMacro) {
            if m.mac.path.is_ident("macro_rules") {
                if let (Some(id), Some(d)) = (&m.ident, parse_macro(&m.mac.tokens, self.text)) { self.out.insert(id.to_string(), d); }
            }
        }
    }
    let mut v = V { text, out: BTreeMap::new() };
    v.visit_file(file);
    v.out
}
fn split_args(ts: &TokenStream, text: &str) -> Vec<String> {
    let mut out = vec![];
    let mut cur: Option<(usize, usize)> = None;
    for t in ts.clone() {
        if let TokenTree::Punct(p) = &t { if p.as_char() == ',' { if let Some((a, b)) = cur.take() { out.push(text[a..b].to_string()); } continue; } }
        let r = t.span().byte_range();
        cur = Some(match cur { None => (r.start, r.end), Some((a, _)) => (a, r.end) });
    }
    if let Some((a, b)) = cur { out.push(text[a..b].to_string()); }
    out
}
fn simple(s: &str) -> bool { s.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '.') || s.starts_with('"') }

/// `format!` with literal template, expanded into pushes of its pieces
fn expand_format(args: &[String]) -> Option<String> {
    let lit: syn::LitStr = syn::parse_str(args.get(0)?).ok()?;
    let t = lit.value();
    let mut out = String::from("({ let mut vx_s = String::new(); ");
    let mut pos = 1;
    let mut buf = String::new();
    let cs: Vec<char> = t.chars().collect();
    let mut i = 0;
    macro_rules! flush { () => { if !buf.is_empty() { out.push_str(&format!("vx_s.push_str({:?}); ", buf)); buf.clear(); } } }
    while i < cs.len() {
        match cs[i] {
            '{' if cs.get(i + 1) == Some(&'{') => { buf.push('{'); i += 2; }
            '}' if cs.get(i + 1) == Some(&'}') => { buf.push('}'); i += 2; }
            '{' => {
                let j = (i..cs.len()).find(|&k| cs[k] == '}')?;
                let name: String = cs[i + 1..j].iter().collect();
                if name.contains(':') { return None; }
                let e = if name.is_empty() { pos += 1; args.get(pos - 1)?.clone() } else { name };
                flush!();
                out.push_str(&format!("vx_push_display(&mut vx_s, &({e})); "));
                i = j + 1;
            }
            c => { buf.push(c); i += 1; }
        }
    }
    flush!();
    out.push_str("vx_s })");
    Some(out)
}

pub struct Cfg<'a> {
    pub macros: &'a BTreeMap<String, MacroDef>,
    pub methods: &'a [(String, String)],
    pub paths: &'a [(String, String)],
    pub opaque_format: bool,
    pub eq_call: bool, pub ref_iter: bool,
}

struct Finder<'a> { text: &'a str, cfg: &'a Cfg<'a>, local: BTreeMap<String, MacroDef>, edits: Vec<Edit>, strings: std::collections::BTreeSet<String> }
impl<'a> Finder<'a> {
    /// `s += t` and `s + t` on strings (the right-hand side is a reference or a literal, or s is a local String) as the calls they stand for
    fn string_plus(&self, e: &syn::ExprBinary) -> Option<(String, &'static str)> {
        fn is_ref(e: &syn::Expr) -> bool { match e { syn::Expr::Reference(_) => true, syn::Expr::Lit(l) => matches!(l.lit, syn::Lit::Str(_)), syn::Expr::Paren(p) => is_ref(&p.expr), syn::Expr::Group(p) => is_ref(&p.expr), _ => false } }
        fn ident(e: &syn::Expr) -> Option<String> { match e { syn::Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()), syn::Expr::Unary(u) => ident(&u.expr), _ => None } }
        let local = ident(&e.left).map_or(false, |i| self.strings.contains(&i));
        if !local && !is_ref(&e.right) { return None; }
        let (l, r) = (&self.text[rng(&*e.left)], &self.text[rng(&*e.right)]);
        match e.op {
            syn::BinOp::AddAssign(_) => Some((if matches!(&*e.left, syn::Expr::Path(_) | syn::Expr::Field(_)) { format!("{l}.push_str({r})") } else { format!("({l}).push_str({r})") }, "+= on a String -> push_str")),
            syn::BinOp::Add(_) => Some((format!("vx_concat({l}, {r})"), "+ on Strings -> call with the contract of concatenation")),
            _ => None,
        }
    }
    fn mac(&mut self, mac: &syn::Macro, whole: std::ops::Range<usize>, stmt: bool) {
        let name = match mac.path.segments.last() { Some(s) => s.ident.to_string(), None => return };
        let args = split_args(&mac.tokens, self.text);
        let def = self.local.get(&name).or_else(|| self.cfg.macros.get(&name)).cloned();
        if let Some(d) = def {
            let mut body = d.body.clone();
            for (p, a) in d.params.iter().zip(args.iter()) {
                let a = if simple(a) { a.clone() } else { format!("({a})") };
                body = replace_dollar(&body, p, &a);
            }
            self.edits.push((whole, format!("{{ {body} }}{}", if stmt { ";" } else { "" }), "macro_rules expansion"));
            return;
        }
        let semi = if stmt { ";" } else { "" };
        let rep = match name.as_str() {
            "format" => if self.cfg.opaque_format { Some(("vx_opaque_string()".to_string(), "format! text dropped (error message)")) }
                        else { expand_format(&args).map(|s| (s, "format! expanded into its pieces")) },
            "println" | "eprintln" | "print" | "eprint" | "dbg" => Some((format!("(){semi}"), "printing dropped")),
            "panic" | "unimplemented" | "unreachable" | "todo" => Some((format!("vx_panic(){semi}"), "panicking macro -> call with precondition false")),
            "assert_eq" => Some((format!("vx_check(({}) == ({})){semi}", args[0], args[1]), "assert_eq! -> call with precondition")),
            "assert" => Some((format!("vx_check({}){semi}", args[0]), "assert! -> call with precondition")),
            "debug_assert" => Some((format!("vx_check({}){semi}", args[0]), "assert! -> call with precondition")),
            _ => None,
        };
        if let Some((r, why)) = rep { self.edits.push((whole, r, why)); }
    }
}
pub fn replace_dollar(body: &str, p: &str, a: &str) -> String {
    let pat = format!("${p}");
    let mut out = String::new();
    let mut rest = body;
    while let Some(i) = rest.find(&pat) {
        let after = rest[i + pat.len()..].chars().next();
        out.push_str(&rest[..i]);
        if after.map_or(false, |c| c.is_alphanumeric() || c == '_') { out.push_str(&pat); } else { out.push_str(a); }
        rest = &rest[i + pat.len()..];
    }
    out.push_str(rest);
    out
}
/// `continue` at the end of a for body is no statement; `if c { ..; continue; } rest` is an if/else
fn tail_continue(text: &str, b: &syn::Block) -> Option<Edit> {
    const WHY: &str = "continue in a for loop -> structured branch";
    fn ends_in_continue(b: &syn::Block) -> bool {
        match b.stmts.last() { Some(syn::Stmt::Expr(syn::Expr::Continue(c), _)) => c.label.is_none(), _ => false }
    }
    fn expr(text: &str, e: &syn::Expr) -> Option<Edit> {
        match e {
            syn::Expr::Continue(c) if c.label.is_none() => Some((rng(c), "()".into(), WHY)),
            syn::Expr::Match(m) => m.arms.iter().find_map(|a| expr(text, &a.body)),
            syn::Expr::If(i) => tail_continue(text, &i.then_branch).or_else(|| i.else_branch.as_ref().and_then(|(_, e)| expr(text, e))),
            syn::Expr::Block(b) if b.label.is_none() => tail_continue(text, &b.block),
            _ => None,
        }
    }
    // a non-final statement that may end in continue takes the rest into its other branch
    let n = b.stmts.len();
    for (k, s) in b.stmts.iter().enumerate() {
        if k + 1 == n { break; }
        if let syn::Stmt::Expr(syn::Expr::If(i), _) = s {
            if i.else_branch.is_none() && ends_in_continue(&i.then_branch) {
                let rest = rng(&b.stmts[k + 1]).start..rng(b).end - 1;
                let last = rng(i.then_branch.stmts.last().unwrap());
                let then = format!("{}{}", &text[rng(i).start..last.start], &text[last.end..rng(i).end]);
                let end = rng(b).end - 1;
                return Some((rng(i).start..end, format!("{then} else {{ {} }}\n", &text[rest]), WHY));
            }
        }
    }
    match b.stmts.last() { Some(syn::Stmt::Expr(e, _)) => expr(text, e), _ => None }
}
/// a for loop over `&v` or `a..b` whose body still uses `continue`: the same loop, counting the index
fn for_to_while(text: &str, e: &syn::ExprForLoop) -> Option<String> {
    struct C { found: bool }
    impl<'ast> Visit<'ast> for C {
        fn visit_expr_continue(&mut self, c: &'ast syn::ExprContinue) { if c.label.is_none() { self.found = true; } }
        fn visit_expr_for_loop(&mut self, _: &'ast syn::ExprForLoop) {}
        fn visit_expr_while(&mut self, _: &'ast syn::ExprWhile) {}
        fn visit_expr_loop(&mut self, _: &'ast syn::ExprLoop) {}
        fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    }
    let mut c = C { found: false };
    c.visit_block(&e.body);
    if !c.found || e.label.is_some() { return None; }
    let n = text.matches("let mut vx_k").count();
    let pat = &text[rng(&e.pat)];
    let b = rng(&e.body);
    let body = &text[b.start + 1..b.end - 1];
    match &*e.expr {
        syn::Expr::Reference(_) => Some(format!("{{ let vx_v{n} = {}; let mut vx_k{n}: usize = 0; while vx_k{n} < vx_v{n}.len() {{ let {pat} = &vx_v{n}[vx_k{n}]; vx_k{n} += 1; {body} }} }}", &text[rng(&e.expr)])),
        syn::Expr::Range(r) => match (&r.start, &r.end, r.limits) {
            (Some(a), Some(z), syn::RangeLimits::HalfOpen(_)) => Some(format!("{{ let mut vx_k{n} = {}; let vx_e{n} = {}; while vx_k{n} < vx_e{n} {{ let {pat} = vx_k{n}; vx_k{n} += 1; {body} }} }}", &text[rng(a)], &text[rng(z)])),
            _ => None,
        },
        _ => None,
    }
}
/// pattern with its `&` removed, and the copies that bind the same values
fn deref_pat(text: &str, p: &syn::Pat) -> Option<(String, String)> {
    struct P { refs: Vec<(usize, usize)>, ids: Vec<String>, depth: usize, bad: bool }
    impl<'ast> Visit<'ast> for P {
        fn visit_pat_reference(&mut self, r: &'ast syn::PatReference) {
            if r.mutability.is_some() || self.depth > 0 { self.bad = true; return; }
            self.refs.push((rng(r).start, rng(&*r.pat).start));
            self.depth += 1; self.visit_pat(&r.pat); self.depth -= 1;
        }
        fn visit_pat_ident(&mut self, i: &'ast syn::PatIdent) {
            if self.depth > 0 {
                if i.by_ref.is_some() || i.mutability.is_some() || i.subpat.is_some() { self.bad = true; }
                let n = i.ident.to_string();
                if n.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') { self.ids.push(n); }
            }
        }
    }
    let mut v = P { refs: vec![], ids: vec![], depth: 0, bad: false };
    v.visit_pat(p);
    if v.bad || v.refs.is_empty() { return None; }
    let r = rng(p);
    let mut t = text[r.clone()].to_string();
    for (a, b) in v.refs.iter().rev() { t.replace_range(a - r.start..b - r.start, ""); }
    Some((t, v.ids.iter().map(|i| format!("let {i} = *{i}; ")).collect()))
}
/// a match whose arms are string literals
fn str_match(text: &str, e: &syn::ExprMatch) -> Option<String> {
    fn lits<'b>(p: &'b syn::Pat, out: &mut Vec<&'b syn::LitStr>) -> bool {
        match p {
            syn::Pat::Lit(l) => if let syn::Lit::Str(s) = &l.lit { out.push(s); true } else { false },
            syn::Pat::Or(o) => o.cases.iter().all(|c| lits(c, out)),
            syn::Pat::Paren(p) => lits(&p.pat, out),
            _ => false,
        }
    }
    let mut out = String::new();
    let mut any = false;
    let mut closed = false;
    for a in &e.arms {
        if closed { break; }
        let body = &text[rng(&a.body)];
        let mut ls = vec![];
        if lits(&a.pat, &mut ls) {
            any = true;
            let mut c = format!("({})", ls.iter().map(|l| format!("vx_is_str(vx_m, {})", &text[rng(*l)])).collect::<Vec<_>>().join(" || "));
            if let Some((_, g)) = &a.guard { c = format!("{c} && ({})", &text[rng(g)]); }
            out.push_str(&format!("if {c} {{ {body} }} else "));
            continue;
        }
        match &a.pat {
            syn::Pat::Wild(_) if a.guard.is_none() => { out.push_str(&format!("{{ {body} }}")); closed = true; }
            syn::Pat::Wild(_) => { out.push_str(&format!("if {} {{ {body} }} else ", &text[rng(&a.guard.as_ref().unwrap().1)])); }
            syn::Pat::Ident(i) if a.guard.is_some() && i.subpat.is_none() && i.by_ref.is_none() && i.mutability.is_none() => {
                let g = &text[rng(&a.guard.as_ref().unwrap().1)];
                out.push_str(&format!("if {{ let {} = vx_m; {g} }} {{ let {} = vx_m; {body} }} else ", i.ident, i.ident));
            }
            syn::Pat::Ident(i) if a.guard.is_none() && i.subpat.is_none() && i.by_ref.is_none() && i.mutability.is_none() => { out.push_str(&format!("{{ let {} = vx_m; {body} }}", i.ident)); closed = true; }
            _ => return None,
        }
    }
    if !any || !closed { return None; }
    Some(format!("match {} {{ vx_m => {{ {out} }} }}", &text[rng(&e.expr)]))
}
impl<'a, 'ast> Visit<'ast> for Finder<'a> {
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        match s {
            syn::Stmt::Item(syn::Item::Macro(m)) if m.mac.path.is_ident("macro_rules") => {
                if let (Some(id), Some(d)) = (&m.ident, parse_macro(&m.mac.tokens, self.text)) {
                    self.local.insert(id.to_string(), d);
                }
                // removed once no use is left (see `rewrite_all`)
                return;
            }
            syn::Stmt::Item(syn::Item::Use(_)) => { }
            syn::Stmt::Macro(m) if m.mac.path.is_ident("lazy_static") => { self.edits.push((rng(m), String::new(), "lazy_static definition replaced by its specification")); return; }
            syn::Stmt::Item(syn::Item::Macro(m)) if m.mac.path.is_ident("lazy_static") => { self.edits.push((rng(m), String::new(), "lazy_static definition replaced by its specification")); return; }
            syn::Stmt::Macro(m) => { let semi = m.semi_token.is_some(); self.mac(&m.mac, rng(m), semi); }
            _ => {}
        }
        visit::visit_stmt(self, s);
    }
    fn visit_arm(&mut self, a: &'ast syn::Arm) {
        if a.guard.is_none() {
            if let Some((np, lets)) = deref_pat(self.text, &a.pat) {
                self.edits.push((rng(&a.pat), np, "& pattern -> binding by reference, then copied"));
                let b = rng(&a.body);
                if !lets.is_empty() { self.edits.push((b.start..b.start, format!("{{ {lets}"), "& pattern -> binding by reference, then copied")); self.edits.push((b.end..b.end, " }".into(), "& pattern -> binding by reference, then copied")); }
                return;
            }
        }
        visit::visit_arm(self, a);
    }
    fn visit_expr_if(&mut self, e: &'ast syn::ExprIf) {
        if let syn::Expr::Let(l) = &*e.cond {
            if let Some((np, lets)) = deref_pat(self.text, &l.pat) {
                self.edits.push((rng(&l.pat), np, "& pattern -> binding by reference, then copied"));
                let b = rng(&e.then_branch).start + 1;
                self.edits.push((b..b, format!(" {lets}"), "& pattern -> binding by reference, then copied"));
                return;
            }
        }
        visit::visit_expr_if(self, e);
    }
    fn visit_expr_while(&mut self, e: &'ast syn::ExprWhile) {
        if let syn::Expr::Let(l) = &*e.cond {
            if let Some((np, lets)) = deref_pat(self.text, &l.pat) {
                self.edits.push((rng(&l.pat), np, "& pattern -> binding by reference, then copied"));
                let b = rng(&e.body).start + 1;
                self.edits.push((b..b, format!(" {lets}"), "& pattern -> binding by reference, then copied"));
                return;
            }
        }
        visit::visit_expr_while(self, e);
    }
    fn visit_expr_for_loop(&mut self, e: &'ast syn::ExprForLoop) {
        if let Some(ed) = tail_continue(self.text, &e.body) { self.edits.push(ed); return; }
        if let Some(t) = for_to_while(self.text, e) { self.edits.push((rng(e), t, "for loop with inner continue -> while loop over the index")); return; }
        if let (true, syn::Expr::Reference(r)) = (self.cfg.ref_iter, &*e.expr) {
            if r.mutability.is_none() {
                self.edits.push((rng(&*e.expr), format!("({}).vx_iter()", &self.text[rng(&*r.expr)]), "for over a reference -> over its iterator"));
                return;
            }
        }
        if let Some((np, lets)) = deref_pat(self.text, &e.pat) {
            let b = rng(&e.body).start + 1;
            self.edits.push((rng(&e.pat), np, "& pattern -> binding by reference, then copied"));
            self.edits.push((b..b, format!(" {lets}"), "& pattern -> binding by reference, then copied"));
            return;
        }
        visit::visit_expr_for_loop(self, e);
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        let mut lets = String::new();
        let mut eds: Vec<Edit> = vec![];
        for (i, p) in c.inputs.iter().enumerate() {
            let (pat, ty) = match p { syn::Pat::Type(t) => (&*t.pat, Some(&t.ty)), p => (p, None) };
            let _ = ty;
            match pat {
                syn::Pat::Wild(_) => eds.push((rng(pat), format!("_vx_p{i}"), "closure pattern -> binding in the body")),
                syn::Pat::Reference(r) if matches!(&*r.pat, syn::Pat::Ident(_)) => { lets.push_str(&format!("let {} = *vx_p{i}; ", &self.text[rng(&*r.pat)])); eds.push((rng(pat), format!("vx_p{i}"), "closure pattern -> binding in the body")); }
                syn::Pat::Ident(x) if x.mutability.is_some() && x.by_ref.is_none() => { lets.push_str(&format!("let mut {} = vx_p{i}; ", x.ident)); eds.push((rng(pat), format!("vx_p{i}"), "closure pattern -> binding in the body")); }
                syn::Pat::Tuple(_) | syn::Pat::TupleStruct(_) | syn::Pat::Struct(_) => { lets.push_str(&format!("let {} = vx_p{i}; ", &self.text[rng(pat)])); eds.push((rng(pat), format!("vx_p{i}"), "closure pattern -> binding in the body")); }
                _ => {}
            }
        }
        if !eds.is_empty() {
            if !lets.is_empty() {
                let b = rng(&*c.body);
                eds.push((b.start..b.start, format!("{{ {lets}"), "closure pattern -> binding in the body"));
                eds.push((b.end..b.end, " }".into(), "closure pattern -> binding in the body"));
            }
            self.edits.extend(eds);
            return;
        }
        visit::visit_expr_closure(self, c);
    }
    fn visit_expr_macro(&mut self, m: &'ast syn::ExprMacro) { self.mac(&m.mac, rng(m), false); }
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) { self.edits.push((rng(a), String::new(), "attribute dropped")); }
    fn visit_expr_reference(&mut self, e: &'ast syn::ExprReference) {
        if e.mutability.is_none() {
            let mut inner = &*e.expr;
            while let syn::Expr::Paren(p) = inner { inner = &p.expr; }
            if let syn::Expr::Index(ix) = inner {
                if let syn::Expr::Range(r) = &*ix.index {
                    let base = &self.text[rng(&ix.expr)];
                    let t = match (&r.start, &r.end, r.limits) {
                        (None, None, _) => Some(format!("({base}).as_slice()")),
                        (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) => Some(format!("({base}).vx_range({}, {})", &self.text[rng(a)], &self.text[rng(b)])),
                        (Some(a), None, _) => Some(format!("({base}).vx_range_from({})", &self.text[rng(a)])),
                        (None, Some(b), syn::RangeLimits::HalfOpen(_)) => Some(format!("({base}).vx_range_to({})", &self.text[rng(b)])),
                        _ => None,
                    };
                    if let Some(t) = t { self.edits.push((rng(e), t, "range index -> call of the same meaning")); return; }
                }
            }
        }
        visit::visit_expr_reference(self, e);
    }
    fn visit_expr_method_call(&mut self, e: &'ast syn::ExprMethodCall) {
        let n = e.method.to_string();
        if let syn::Expr::Index(ix) = &*e.receiver { if let syn::Expr::Range(r) = &*ix.index {
            let base = &self.text[rng(&ix.expr)];
            let t = match (&r.start, &r.end, r.limits) {
                (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) => Some(format!("({base}).vx_range({}, {})", &self.text[rng(a)], &self.text[rng(b)])),
                (Some(a), None, _) => Some(format!("({base}).vx_range_from({})", &self.text[rng(a)])),
                (None, Some(b), syn::RangeLimits::HalfOpen(_)) => Some(format!("({base}).vx_range_to({})", &self.text[rng(b)])),
                _ => None,
            };
            if let Some(t) = t { self.edits.push((rng(&e.receiver), t, "range index -> call of the same meaning")); return; }
        } }
        if let syn::Expr::Paren(pr) = &*e.receiver { if let syn::Expr::Range(r) = &*pr.expr { if let (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) = (&r.start, &r.end, r.limits) {
            self.edits.push((rng(&e.receiver), format!("vx_range_list({}, {})", &self.text[rng(a)], &self.text[rng(b)]), "integer range -> list of its members"));
            return;
        } } }
        for (a, b) in self.cfg.methods {
            if let Some((nm, cnt)) = a.split_once('/') { if nm == n && e.args.len().to_string() == cnt { self.edits.push((rng(&e.method), b.clone(), "library method -> specified wrapper")); return; } }
            else if *a == n { self.edits.push((rng(&e.method), b.clone(), "library method -> specified wrapper")); return; }
        }
        visit::visit_expr_method_call(self, e);
    }
    fn visit_expr_binary(&mut self, e: &'ast syn::ExprBinary) {
        if let Some((r, why)) = self.string_plus(e) { self.edits.push((rng(e), r, why)); return; }
        if matches!(e.op, syn::BinOp::Add(_) | syn::BinOp::Sub(_) | syn::BinOp::Mul(_)) {
            if let syn::Expr::Reference(r) = &*e.left { if r.mutability.is_none() { let t = format!("({})", &self.text[rng(&*r.expr)]); self.edits.push((rng(&*e.left), t, "arithmetic on a reference -> on the value")); return; } }
        }
        let neg = match e.op { syn::BinOp::Eq(_) => "", syn::BinOp::Ne(_) => "!", _ => { visit::visit_expr_binary(self, e); return; } };
        if self.cfg.eq_call { let t = format!("{neg}vx_eq(&({}), &({}))", &self.text[rng(&e.left)], &self.text[rng(&e.right)]); self.edits.push((rng(e), t, "== / != written as a call of PartialEq")); return; }
        visit::visit_expr_binary(self, e);
    }
    fn visit_local(&mut self, l: &'ast syn::Local) {
        let (name, typed) = match &l.pat {
            syn::Pat::Ident(i) => (Some(i.ident.to_string()), false),
            syn::Pat::Type(t) => match &*t.pat { syn::Pat::Ident(i) => (Some(i.ident.to_string()), self.text[rng(&*t.ty)].trim() == "String"), _ => (None, false) },
            _ => (None, false),
        };
        let init = l.init.as_ref().map_or(String::new(), |i| self.text[rng(&*i.expr)].split_whitespace().collect());
        if let Some(n) = name { if typed || init.starts_with("String::") || init.starts_with("format!") || init.ends_with(".to_string()") || init.ends_with(".to_owned()") { self.strings.insert(n); } else { self.strings.remove(&n); } }
        visit::visit_local(self, l);
    }
    fn visit_expr_match(&mut self, e: &'ast syn::ExprMatch) {
        if let Some(t) = str_match(self.text, e) { self.edits.push((rng(e), t, "match on string literals -> comparisons in arm order")); return; }
        visit::visit_expr_match(self, e);
    }
    fn visit_fn_arg(&mut self, a: &'ast syn::FnArg) {
        if let syn::FnArg::Typed(pt) = a {
            if let syn::Type::Reference(r) = &*pt.ty {
                if let syn::Type::TraitObject(o) = &*r.elem {
                    if let (Some(d), Some(syn::TypeParamBound::Trait(b))) = (&o.dyn_token, o.bounds.first()) {
                        if o.bounds.len() == 1 && b.path.segments.last().map_or(false, |s| s.ident == "Fn") { self.edits.push((rng(d), "impl".into(), "&dyn Fn parameter -> &impl Fn")); return; }
                    }
                }
            }
        }
        visit::visit_fn_arg(self, a);
    }
    fn visit_path(&mut self, p: &'ast syn::Path) {
        let t: String = p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
        for (a, b) in self.cfg.paths { if *a == t && p.segments.iter().all(|s| s.arguments.is_empty()) { self.edits.push((rng(p), b.clone(), "library path -> specified wrapper")); return; } }
        visit::visit_path(self, p);
    }
}

pub fn parse_fn(text: &str) -> Result<syn::ImplItemFn, String> { syn::parse_str::<syn::ImplItemFn>(text).map_err(|e| format!("{e}")) }

/// applies all rewrites to fixpoint
pub fn rewrite_all(mut text: String, cfg: &Cfg, log: &mut Vec<String>) -> Result<String, String> {
    for _ in 0..400 {
        let f = parse_fn(&text)?;
        let mut v = Finder { text: &text, cfg, local: BTreeMap::new(), edits: vec![], strings: Default::default() };
        v.visit_impl_item_fn(&f);
        if v.edits.is_empty() {
            // drop local macro definitions
            struct D(Vec<std::ops::Range<usize>>);
            impl<'ast> Visit<'ast> for D { fn visit_item_macro(&mut self, m: &'ast syn::ItemMacro) { self.0.push(rng(m)); } }
            let mut d = D(vec![]);
            d.visit_impl_item_fn(&f);
            for r in d.0.into_iter().rev() { text.replace_range(r, ""); }
            return Ok(text);
        }
        let mut edits = v.edits;
        edits.sort_by_key(|e| (e.0.start, std::cmp::Reverse(e.0.end)));
        let mut chosen: Vec<Edit> = vec![];
        let mut last = 0;
        for e in edits { if e.0.start >= last { last = e.0.end; chosen.push(e); } }
        for (r, s, why) in chosen.into_iter().rev() {
            if !log.iter().any(|l| l == why) { log.push(why.to_string()); }
            text.replace_range(r, &s);
        }
    }
    Err("rewriting did not terminate".into())
}
#[allow(dead_code)]
fn unused(_: Delimiter) {}
