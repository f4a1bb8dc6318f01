//! constructs a behaviour-preserving edit introduces and for which there can be no annotation, written
//! out before the annotations are placed: a loop over an array written in place becomes its iterations,
//! a local closure that is only called becomes its body at each call. Text of the baseline is left alone.
use crate::rewrite::{parse_fn, rng};
use std::ops::Range;
use syn::visit::{self, Visit};

fn words(s: &str) -> impl Iterator<Item = &str> { s.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|w| !w.is_empty()) }
fn count(s: &str, w: &str) -> usize { words(s).filter(|x| *x == w).count() }
fn flat(s: &str) -> String { s.split_whitespace().collect() }
fn binds(text: &str, names: &mut Vec<String>) {
    struct B<'a>(&'a mut Vec<String>);
    impl<'a, 'ast> Visit<'ast> for B<'a> { fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) { self.0.push(p.ident.to_string()); visit::visit_pat_ident(self, p); } }
    if let Ok(f) = parse_fn(text) { B(names).visit_impl_item_fn(&f); }
}
/// its value does not depend on when it is evaluated, as long as the names in it keep theirs
fn steady(e: &syn::Expr, body: &str) -> bool {
    match e {
        syn::Expr::Lit(_) => true,
        syn::Expr::Path(p) => match p.path.get_ident() { Some(i) => count(body, &i.to_string()) == 0, None => true },
        syn::Expr::Reference(r) => r.mutability.is_none() && steady(&r.expr, body),
        syn::Expr::Unary(u) => !matches!(u.op, syn::UnOp::Deref(_)) && steady(&u.expr, body),
        syn::Expr::Paren(p) => steady(&p.expr, body),
        syn::Expr::Tuple(t) => t.elems.iter().all(|x| steady(x, body)),
        syn::Expr::MethodCall(m) => m.args.is_empty() && ["to_string", "to_owned", "into", "clone"].contains(&m.method.to_string().as_str()) && steady(&m.receiver, body),
        syn::Expr::Call(c) => matches!(&*c.func, syn::Expr::Path(p) if p.path.segments.len() >= 2 && p.path.segments.last().unwrap().ident.to_string().starts_with(|c: char| c.is_uppercase())) && c.args.iter().all(|x| steady(x, body)),
        _ => false,
    }
}
struct Leaves(bool);
impl<'ast> Visit<'ast> for Leaves {
    fn visit_expr_break(&mut self, _: &'ast syn::ExprBreak) { self.0 = true; }
    fn visit_expr_continue(&mut self, _: &'ast syn::ExprContinue) { self.0 = true; }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
}
struct Returns(bool);
impl<'ast> Visit<'ast> for Returns {
    fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) { self.0 = true; }
    fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) { self.0 = true; }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) { self.0 = true; let _ = c; }
}
struct Calls<'a> { name: &'a str, calls: Vec<(Range<usize>, Vec<Range<usize>>)> }
impl<'a, 'ast> Visit<'ast> for Calls<'a> {
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        visit::visit_expr_call(self, c);
        if matches!(&*c.func, syn::Expr::Path(p) if p.path.is_ident(self.name)) { self.calls.push((rng(c), c.args.iter().map(|a| rng(a)).collect())); }
    }
}
struct V<'a> { text: &'a str, base: &'a str, edit: Option<(Vec<(Range<usize>, String)>, String)> }
impl<'a, 'ast> Visit<'ast> for V<'a> {
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        visit::visit_expr_for_loop(self, l);
        if self.edit.is_some() || l.label.is_some() || self.base.contains(&flat(&self.text[rng(l)])) { return; }
        let (arr, by_ref) = match &*l.expr {
            syn::Expr::Array(a) => (a, false),
            syn::Expr::Reference(r) => match &*r.expr { syn::Expr::Array(a) if r.mutability.is_none() => (a, true), _ => return },
            syn::Expr::MethodCall(m) if m.args.is_empty() => match (&*m.receiver, m.method.to_string().as_str()) { (syn::Expr::Array(a), "iter") => (a, true), (syn::Expr::Array(a), "into_iter") => (a, false), _ => return },
            _ => return,
        };
        let body = &self.text[rng(&l.body)];
        let mut out = Leaves(false); out.visit_block(&l.body);
        if out.0 || arr.elems.len() > 24 || !arr.elems.iter().all(|e| steady(e, body)) { return; }
        let pat = &self.text[rng(&*l.pat)];
        let t: String = arr.elems.iter().map(|e| format!("{{ let {pat} = {}{}; {body} }} ", if by_ref { "&" } else { "" }, &self.text[rng(e)])).collect();
        self.edit = Some((vec![(rng(l), format!("{{ {t}}}"))], "loop over an array written in place -> its iterations".into()));
    }
    fn visit_block(&mut self, b: &'ast syn::Block) {
        visit::visit_block(self, b);
        if self.edit.is_some() { return; }
        for s in &b.stmts {
            let syn::Stmt::Local(l) = s else { continue };
            let (syn::Pat::Ident(p), Some(init)) = (&l.pat, &l.init) else { continue };
            let syn::Expr::Closure(c) = &*init.expr else { continue };
            if self.base.contains(&flat(&self.text[rng(l)])) || c.capture.is_some() || c.asyncness.is_some() || init.diverge.is_some() { continue; }
            let name = p.ident.to_string();
            let body = &self.text[rng(&*c.body)];
            let mut r = Returns(false); r.visit_expr(&c.body);
            if r.0 { continue; }
            let mut calls = Calls { name: &name, calls: vec![] };
            calls.visit_block(b);
            if calls.calls.is_empty() || count(self.text, &name) != calls.calls.len() + 1 { continue; }
            // calls inside each other would need a second pass over moved text
            if calls.calls.iter().any(|x| calls.calls.iter().any(|y| x.0 != y.0 && x.0.start <= y.0.start && y.0.end <= x.0.end)) { continue; }
            let mut params: Vec<(String, String)> = vec![];
            let mut simple = true;
            for i in &c.inputs { match i { syn::Pat::Type(t) => params.push((self.text[rng(&*t.pat)].to_string(), self.text[rng(&*t.ty)].to_string())), syn::Pat::Ident(_) | syn::Pat::Wild(_) | syn::Pat::Tuple(_) | syn::Pat::Reference(_) => params.push((self.text[rng(i)].to_string(), "_".into())), _ => simple = false } }
            if !simple || calls.calls.iter().any(|x| x.1.len() != params.len()) { continue; }
            let mut bound = vec![]; binds(self.text, &mut bound);
            let own: Vec<&str> = params.iter().flat_map(|x| words(&x.0).collect::<Vec<_>>()).collect();
            // a name of the body that is bound more than once may mean something else at a call
            if words(body).any(|w| !own.contains(&w) && bound.iter().filter(|b| *b == w).count() > 1) { continue; }
            let mut edits = vec![(rng(s), String::new())];
            for (at, args) in &calls.calls {
                let args: Vec<&str> = args.iter().map(|a| &self.text[a.clone()]).collect();
                let lets = match params.len() {
                    0 => String::new(),
                    1 => if params[0].1 == "_" { format!("let {} = {}; ", params[0].0, args[0]) } else { format!("let {}: {} = {}; ", params[0].0, params[0].1, args[0]) },
                    _ => { let j = |i: usize| params.iter().map(|p| if i == 0 { p.0.clone() } else { p.1.clone() }).collect::<Vec<_>>().join(", "); format!("let ({}): ({}) = ({}); ", j(0), j(1), args.join(", ")) }
                };
                edits.push((at.clone(), format!("({{ {lets}{body} }})")));
            }
            self.edit = Some((edits, format!("local closure {name} -> its body at its calls")));
            return;
        }
    }
}
pub fn simplify(mut text: String, base: &str, log: &mut Vec<String>) -> String {
    let base = flat(base);
    for _ in 0..20 {
        let Ok(f) = parse_fn(&text) else { return text };
        let mut v = V { text: &text, base: &base, edit: None };
        v.visit_impl_item_fn(&f);
        let Some((mut e, n)) = v.edit else { return text };
        e.sort_by_key(|x| std::cmp::Reverse(x.0.start));
        let mut t = text.clone();
        for (r, s) in e { t.replace_range(r, &s); }
        if parse_fn(&t).is_err() { return text; }
        log.push(n);
        text = t;
    }
    text
}
