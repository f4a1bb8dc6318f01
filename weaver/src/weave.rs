use crate::rewrite::{self, parse_fn, rng};
use crate::unit::{FnSpec, Item, Unit};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

pub struct Source { pub text: String, pub file: Result<syn::File, String> }
pub struct FnOut { pub path: String, pub src: String, pub lines: (usize, usize), pub out: (usize, usize), pub props: Vec<String>, pub lost: Vec<String>, pub log: Vec<String>, pub renames: Vec<(String, String)>, pub inlined: Vec<String>, pub changed: bool, pub missing: bool, pub vac: bool, pub name: String, pub stubbed: bool }
pub struct Res { pub text: String, pub fns: Vec<FnOut>, pub errors: Vec<String> }
impl Res {
    pub fn json(&self) -> Value {
        json!({"errors": self.errors, "fns": self.fns.iter().map(|f| json!({"path": f.path, "name": f.name, "src": f.src, "src_lines": [f.lines.0, f.lines.1], "out_lines": [f.out.0, f.out.1], "props": f.props, "lost": f.lost, "rewrites": f.log, "renames": f.renames, "inlined": f.inlined, "changed": f.changed, "missing": f.missing, "vac": f.vac, "stubbed": f.stubbed})).collect::<Vec<_>>()})
    }
}
fn load<'a>(cache: &'a mut BTreeMap<String, Source>, root: &str, src: &str) -> &'a Source {
    let key = format!("{root}/{src}");
    cache.entry(key.clone()).or_insert_with(|| {
        let text = fs::read_to_string(&key).unwrap_or_default();
        let file = syn::parse_file(&text).map_err(|e| format!("{key}: {e}"));
        Source { text, file }
    })
}
pub struct Found { pub text: String, pub header: Option<String>, pub lines: (usize, usize) }

fn ty_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => ty_name(&r.elem),
        _ => String::new(),
    }
}
fn all_items(items: &[syn::Item], out: &mut Vec<syn::Item>) {
    for i in items {
        if let syn::Item::Mod(m) = i { if let Some((_, its)) = &m.content { all_items(its, out); continue; } }
        out.push(i.clone());
    }
}
/// list of (path, signature-start..end range, header)
pub fn list_fns(src: &Source) -> Vec<(String, std::ops::Range<usize>, Option<String>)> {
    let mut out = vec![];
    let file = match &src.file { Ok(f) => f, Err(_) => return out };
    let mut items = vec![];
    all_items(&file.items, &mut items);
    for it in &items {
        match it {
            syn::Item::Fn(f) => { let s = rng(&f.sig).start; let e = rng(&f.block).end; out.push((f.sig.ident.to_string(), s..e, None)); }
            syn::Item::Impl(im) => {
                let ty = ty_name(&im.self_ty);
                let tr = im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
                let gen = if im.generics.params.is_empty() { String::new() } else { src.text[im.generics.lt_token.unwrap().span.byte_range().start..im.generics.gt_token.unwrap().span.byte_range().end].to_string() };
                let header = format!("impl{} {}", gen, &src.text[rng(&im.self_ty)]);
                for x in &im.items {
                    if let syn::ImplItem::Fn(f) = x {
                        let s = rng(&f.sig).start; let e = rng(&f.block).end;
                        let p = match &tr { Some(t) => format!("{t} for {ty}::{}", f.sig.ident), None => format!("{ty}::{}", f.sig.ident) };
                        out.push((p, s..e, Some(header.clone())));
                    }
                }
            }
            syn::Item::Trait(t) => {
                for x in &t.items { if let syn::TraitItem::Fn(f) = x { if let Some(b) = &f.default { out.push((format!("{}::{}", t.ident, f.sig.ident), rng(&f.sig).start..rng(b).end, None)); } } }
            }
            _ => {}
        }
    }
    out
}
/// `static:NAME` of a lazy_static block, read as a function computing its initial value
fn find_static(src: &Source, name: &str) -> Option<Found> {
    use syn::parse::{ParseStream, Parser};
    let file = src.file.as_ref().ok()?;
    struct M<'b>(Vec<&'b syn::Macro>);
    impl<'ast> syn::visit::Visit<'ast> for M<'ast> { fn visit_macro(&mut self, m: &'ast syn::Macro) { if m.path.segments.last().map_or(false, |s| s.ident == "lazy_static") { self.0.push(m); } } }
    let mut ms = M(vec![]);
    syn::visit::Visit::visit_file(&mut ms, file);
    for mac in ms.0 {
        let list = (|input: ParseStream| {
            let mut v: Vec<(String, std::ops::Range<usize>, std::ops::Range<usize>)> = vec![];
            while !input.is_empty() {
                syn::Attribute::parse_outer(input)?;
                input.parse::<syn::Visibility>()?;
                input.parse::<syn::Token![static]>()?;
                input.parse::<syn::Token![ref]>()?;
                let id: syn::Ident = input.parse()?;
                input.parse::<syn::Token![:]>()?;
                let t: syn::Type = input.parse()?;
                input.parse::<syn::Token![=]>()?;
                let e: syn::Expr = input.parse()?;
                input.parse::<syn::Token![;]>()?;
                v.push((id.to_string(), rng(&t), rng(&e)));
            }
            Ok(v)
        }).parse2(mac.tokens.clone()).ok()?;
        for (n, t, e) in list {
            if n == name {
                let l1 = src.text[..t.start].matches('\n').count() + 1;
                let l2 = src.text[..e.end].matches('\n').count() + 1;
                return Some(Found { text: format!("fn vx_static_{n}() -> {} {{ {} }}", &src.text[t], &src.text[e]), header: None, lines: (l1, l2) });
            }
        }
    }
    None
}
/// `CALLEE@CALLER`: the generic function CALLEE as CALLER uses it: every `fn` pointer parameter is
/// replaced by the function passed for it, the type parameters by the types this determines
fn spec_name(callee: &str, caller: &str) -> String { format!("{}_at_{}", callee.rsplit("::").next().unwrap(), caller.replace("::", "_")) }
fn spec_call<'a>(f: &'a syn::ImplItemFn, callee: &str) -> Option<syn::ExprCall> {
    struct C(String, Vec<syn::ExprCall>);
    impl<'ast> Visit<'ast> for C { fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) { if let syn::Expr::Path(p) = &*c.func { if p.path.segments.last().map_or(false, |s| s.ident == self.0) { self.1.push(c.clone()); } } visit::visit_expr_call(self, c); } }
    let mut v = C(callee.to_string(), vec![]);
    v.visit_impl_item_fn(f);
    if v.1.len() == 1 { v.1.pop() } else { None }
}
fn unify(a: &syn::Type, b: &syn::Type, gens: &BTreeSet<String>, out: &mut BTreeMap<String, String>) {
    use syn::{GenericArgument as G, PathArguments as P, ReturnType as R, Type as T};
    match (a, b) {
        (T::Path(x), T::Path(y)) => {
            if let Some(i) = x.path.get_ident() { if gens.contains(&i.to_string()) { out.insert(i.to_string(), quote_ty(b)); return; } }
            if let (Some(P::AngleBracketed(p)), Some(P::AngleBracketed(q))) = (x.path.segments.last().map(|s| &s.arguments), y.path.segments.last().map(|s| &s.arguments)) {
                for (m, n) in p.args.iter().zip(q.args.iter()) { if let (G::Type(m), G::Type(n)) = (m, n) { unify(m, n, gens, out); } }
            }
        }
        (T::Reference(x), T::Reference(y)) => unify(&x.elem, &y.elem, gens, out),
        (T::BareFn(x), T::BareFn(y)) => {
            for (m, n) in x.inputs.iter().zip(y.inputs.iter()) { unify(&m.ty, &n.ty, gens, out); }
            if let (R::Type(_, m), R::Type(_, n)) = (&x.output, &y.output) { unify(m, n, gens, out); }
        }
        (T::Tuple(x), T::Tuple(y)) => for (m, n) in x.elems.iter().zip(y.elems.iter()) { unify(m, n, gens, out); },
        _ => {}
    }
}
fn quote_ty(t: &syn::Type) -> String { use quote::ToTokens; t.to_token_stream().to_string() }
fn specialise(src: &Source, callee: &str, caller: &str) -> Option<Found> {
    let (fd, cd) = (find_fn(src, callee)?, find_fn(src, caller)?);
    let (f, c) = (parse_fn(&fd.text).ok()?, parse_fn(&cd.text).ok()?);
    let call = spec_call(&c, callee.rsplit("::").next()?)?;
    let self_ty = caller.rsplit_once("::").map(|x| x.0.rsplit(' ').next().unwrap().to_string());
    let gens: BTreeSet<String> = f.sig.generics.type_params().map(|t| t.ident.to_string()).collect();
    if call.args.len() != f.sig.inputs.len() { return None; }
    let (mut types, mut subst, mut keep) = (BTreeMap::new(), vec![], vec![]);
    for (p, a) in f.sig.inputs.iter().zip(call.args.iter()) {
        let p = if let syn::FnArg::Typed(p) = p { p } else { return None };
        match (&*p.ty, a, &*p.pat) {
            (syn::Type::BareFn(b), syn::Expr::Path(q), syn::Pat::Ident(i)) => {
                let mut path = cd.text[rng(q)].split_whitespace().collect::<String>();
                if let Some(t) = &self_ty { if let Some(r) = path.strip_prefix("Self::") { path = format!("{t}::{r}"); } }
                let g = parse_fn(&find_fn(src, &path)?.text).ok()?;
                if g.sig.inputs.len() != b.inputs.len() { return None; }
                for (m, n) in b.inputs.iter().zip(g.sig.inputs.iter()) { if let syn::FnArg::Typed(n) = n { unify(&m.ty, &n.ty, &gens, &mut types); } }
                if let (syn::ReturnType::Type(_, m), syn::ReturnType::Type(_, n)) = (&b.output, &g.sig.output) { unify(m, n, &gens, &mut types); }
                if let Some((t, _)) = path.rsplit_once("::") { for v in types.values_mut() { *v = rename_text(v, &[("Self".to_string(), t.to_string())]); } }
                subst.push((i.ident.to_string(), path));
            }
            _ => keep.push(fd.text[rng(p)].to_string()),
        }
    }
    if types.len() != gens.len() { return None; }
    let head = format!("fn {}({}){} ", spec_name(callee, caller), keep.join(", "), match &f.sig.output { syn::ReturnType::Default => String::new(), o => format!(" {}", &fd.text[rng(o)]) });
    let mut all: Vec<(String, String)> = types.into_iter().collect();
    let head = rename_text(&head, &all);
    all.extend(subst);
    Some(Found { text: format!("{head}{}", rename_text(&fd.text[rng(&f.block)], &all)), header: None, lines: fd.lines })
}
/// the caller calls its specialised callee
fn use_special(text: String, u: &Unit, path: &str) -> String {
    let mut text = text;
    for it in &u.items {
        let (callee, caller) = match it { Item::Fn(f) => match f.path.split_once('@') { Some(x) => x, None => continue }, _ => continue };
        if caller != path { continue; }
        let f = match parse_fn(&text) { Ok(f) => f, Err(_) => continue };
        if let Some(c) = spec_call(&f, callee.rsplit("::").next().unwrap()) {
            let args: Vec<String> = c.args.iter().filter(|a| !matches!(a, syn::Expr::Path(q) if q.path.segments.len() > 1)).map(|a| text[rng(a)].to_string()).collect();
            text.replace_range(rng(&c), &format!("{}({})", spec_name(callee, caller), args.join(", ")));
        }
    }
    text
}
pub fn find_fn(src: &Source, path: &str) -> Option<Found> {
    if let Some(n) = path.strip_prefix("static:") { return find_static(src, n); }
    if let Some((callee, caller)) = path.split_once('@') { return specialise(src, callee, caller); }
    for (p, r, h) in list_fns(src) {
        if p == path {
            let l1 = src.text[..r.start].matches('\n').count() + 1;
            let l2 = src.text[..r.end].matches('\n').count() + 1;
            return Some(Found { text: src.text[r].to_string(), header: h, lines: (l1, l2) });
        }
    }
    None
}
/// k-th closure in a function: returns its body text and parameter patterns
fn closure_of(text: &str, k: usize) -> Option<(String, Vec<String>)> {
    struct V { all: Vec<(std::ops::Range<usize>, Vec<std::ops::Range<usize>>)> }
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
            self.all.push((rng(&c.body), c.inputs.iter().map(|p| rng(p)).collect()));
            visit::visit_expr_closure(self, c);
        }
    }
    let f = parse_fn(text).ok()?;
    let mut v = V { all: vec![] };
    v.visit_impl_item_fn(&f);
    let (b, ps) = v.all.get(k)?.clone();
    Some((text[b].to_string(), ps.into_iter().map(|r| text[r].to_string()).collect()))
}

// ---------- bindings (for renamed locals) ----------
fn bindings(text: &str) -> Vec<(String, String)> {
    struct V<'a> { text: &'a str, out: Vec<(String, String)>, ctx: String }
    impl<'a, 'ast> Visit<'ast> for V<'a> {
        fn visit_local(&mut self, l: &'ast syn::Local) {
            let save = std::mem::take(&mut self.ctx);
            self.ctx = format!("let {}", l.init.as_ref().map(|i| self.text[rng(&i.expr)].split_whitespace().collect::<String>()).unwrap_or_default());
            self.visit_pat(&l.pat);
            self.ctx = save;
            if let Some(i) = &l.init { self.visit_expr(&i.expr); if let Some(d) = &i.diverge { self.visit_expr(&d.1); } }
        }
        fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
            let n = p.ident.to_string();
            if n.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') { self.out.push((n, self.ctx.clone())); }
            visit::visit_pat_ident(self, p);
        }
        fn visit_macro(&mut self, _m: &'ast syn::Macro) {}
    }
    let f = match parse_fn(text) { Ok(f) => f, Err(_) => return vec![] };
    let mut v = V { text, out: vec![], ctx: "pat".into() };
    v.visit_impl_item_fn(&f);
    v.out
}
fn blank(ctx: &str, names: &BTreeSet<String>) -> String {
    // blank out all local names
    let mut out = String::new();
    let mut id = String::new();
    for c in ctx.chars().chain(std::iter::once(' ')) {
        if c.is_alphanumeric() || c == '_' { id.push(c); } else {
            if !id.is_empty() { if names.contains(&id) { out.push('_'); } else { out.push_str(&id); } id.clear(); }
            out.push(c);
        }
    }
    out
}
fn rename_map(base: &str, cur: &str) -> Vec<(String, String)> {
    let b = bindings(base);
    let c = bindings(cur);
    let bn: BTreeSet<String> = b.iter().map(|x| x.0.clone()).collect();
    let cn: BTreeSet<String> = c.iter().map(|x| x.0.clone()).collect();
    let mut missing: Vec<(String, String)> = vec![];
    for x in &b { if !cn.contains(&x.0) && !missing.iter().any(|m| m.0 == x.0) { missing.push(x.clone()); } }
    let mut new: Vec<(String, String)> = vec![];
    for x in &c { if !bn.contains(&x.0) && !new.iter().any(|m| m.0 == x.0) { new.push(x.clone()); } }
    let mut map = vec![];
    let mut rest = vec![];
    for m in missing {
        let mb = blank(&m.1, &bn);
        if let Some(i) = new.iter().position(|n| blank(&n.1, &cn) == mb && mb != "pat ") { map.push((m.0.clone(), new.remove(i).0)); } else { rest.push(m); }
    }
    for m in rest { if let Some(i) = new.iter().position(|n| (n.1 == "pat") == (m.1 == "pat")) { map.push((m.0.clone(), new.remove(i).0)); } }
    map
}
pub fn rename_text(t: &str, map: &[(String, String)]) -> String { rename_in(t, map, false) }
/// in an annotation the name of a local is not the name of a specification function
fn rename_ann(t: &str, map: &[(String, String)]) -> String { rename_in(t, map, true) }
fn rename_in(t: &str, map: &[(String, String)], ann: bool) -> String {
    if map.is_empty() { return t.to_string(); }
    let mut out = String::new();
    let mut id = String::new();
    let mut prev = ' ';
    for c in t.chars().chain(std::iter::once('\0')) {
        if c.is_alphanumeric() || c == '_' { id.push(c); } else {
            if !id.is_empty() {
                match map.iter().find(|m| m.0 == id && prev != '.' && !(ann && c == '(')) { Some(m) => out.push_str(&m.1), None => out.push_str(&id) }
                id.clear();
            }
            if c != '\0' { out.push(c); prev = c; }
        }
        if c.is_alphanumeric() || c == '_' { if id.len() == 1 { /* prev stays the char before the identifier */ } }
    }
    out
}

fn has_return<F: FnOnce(&mut HasRet)>(f: F) -> bool { let mut h = HasRet(false); f(&mut h); h.0 }
struct HasRet(bool);
impl<'ast> Visit<'ast> for HasRet { fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) { self.0 = true; } fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {} }
/// statements whose early returns are all in tail position once written as if/else: the same as one expression
fn tail_block(t: &str, stmts: &[syn::Stmt]) -> Option<String> {
    let mut out = String::from("{ ");
    for (i, st) in stmts.iter().enumerate() {
        if !has_return(|h| h.visit_stmt(st)) { out.push_str(&t[rng(st)]); out.push('\n'); continue; }
        let rest = &stmts[i + 1..];
        match st {
            syn::Stmt::Expr(e, _) => match e {
                syn::Expr::If(x) if x.else_branch.is_none() || rest.is_empty() => {
                    if has_return(|h| h.visit_expr(&x.cond)) { return None; }
                    if !rest.is_empty() && !ends_in_return(&x.then_branch) { return None; }
                    let th = tail_block(t, &x.then_branch.stmts)?;
                    let el = match &x.else_branch { None => tail_block(t, rest)?, Some((_, e)) => tail_expr(t, e)? };
                    out.push_str(&format!("if {} {th} else {el} }}", &t[rng(&*x.cond)]));
                    return Some(out);
                }
                e if rest.is_empty() || matches!(e, syn::Expr::Return(_)) => { out.push_str(&tail_expr(t, e)?); out.push_str(" }"); return Some(out); }
                _ => return None,
            },
            syn::Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                let pat = &t[rng(&l.pat)];
                if let Some((_, d)) = &init.diverge {
                    if has_return(|h| h.visit_expr(&init.expr)) { return None; }
                    out.push_str(&format!("if let {pat} = {} {} else {} }}", &t[rng(&*init.expr)], tail_block(t, rest)?, tail_expr(t, d)?));
                    return Some(out);
                }
                if let syn::Expr::Match(m) = &*init.expr {
                    if has_return(|h| h.visit_expr(&m.expr)) { return None; }
                    let mut arms = String::new();
                    let mut cont = 0;
                    for a in &m.arms {
                        if a.guard.is_some() { return None; }
                        if has_return(|h| h.visit_expr(&a.body)) { arms.push_str(&format!("{} => {}, ", &t[rng(&a.pat)], tail_expr(t, &a.body)?)); }
                        else { cont += 1; arms.push_str(&format!("{} => {{ let {pat} = {}; {} }}, ", &t[rng(&a.pat)], &t[rng(&*a.body)], tail_block(t, rest)?)); }
                    }
                    if cont != 1 { return None; }
                    out.push_str(&format!("match {} {{ {arms} }} }}", &t[rng(&*m.expr)]));
                    return Some(out);
                }
                return None;
            }
            _ => return None,
        }
    }
    out.push('}');
    Some(out)
}
fn ends_in_return(b: &syn::Block) -> bool { match b.stmts.last() { Some(syn::Stmt::Expr(syn::Expr::Return(_), _)) => true, _ => false } }
fn tail_expr(t: &str, e: &syn::Expr) -> Option<String> {
    if !has_return(|h| h.visit_expr(e)) { return Some(format!("{{ {} }}", &t[rng(e)])); }
    match e {
        syn::Expr::Return(r) => match &r.expr { Some(x) => if has_return(|h| h.visit_expr(x)) { None } else { Some(format!("{{ {} }}", &t[rng(&**x)])) }, None => Some("{ () }".into()) },
        syn::Expr::Block(b) => tail_block(t, &b.block.stmts),
        syn::Expr::If(x) => {
            if has_return(|h| h.visit_expr(&x.cond)) { return None; }
            let el = match &x.else_branch { None => return None, Some((_, e)) => tail_expr(t, e)? };
            Some(format!("{{ if {} {} else {el} }}", &t[rng(&*x.cond)], tail_block(t, &x.then_branch.stmts)?))
        }
        syn::Expr::Match(m) => {
            if has_return(|h| h.visit_expr(&m.expr)) { return None; }
            let mut arms = String::new();
            for a in &m.arms { if a.guard.is_some() { return None; } arms.push_str(&format!("{} => {}, ", &t[rng(&a.pat)], tail_expr(t, &a.body)?)); }
            Some(format!("{{ match {} {{ {arms} }} }}", &t[rng(&*m.expr)]))
        }
        _ => None,
    }
}
/// the error type of a function returning `Result<_, E>`
fn err_type(f: &syn::ImplItemFn) -> Option<String> {
    if let syn::ReturnType::Type(_, t) = &f.sig.output { if let syn::Type::Path(p) = &**t { let s = p.path.segments.last()?; if s.ident == "Result" { if let syn::PathArguments::AngleBracketed(a) = &s.arguments { if a.args.len() == 2 { if let syn::GenericArgument::Type(e) = &a.args[1] { return Some(quote_ty(e)); } } } } } }
    None
}
// ---------- inlining of helpers that did not exist when the contracts were written ----------
fn inline_new(text: &str, src: &Source, known: &BTreeSet<String>, self_ty: Option<&str>, log: &mut Vec<String>) -> String {
    let mut text = text.to_string();
    let helpers: Vec<(String, std::ops::Range<usize>, Option<String>)> = list_fns(src).into_iter().filter(|f| !known.contains(&f.0)).collect();
    if helpers.is_empty() { return text; }
    // a new helper handed over by name is a closure calling it
    for _ in 0..10 {
        let f = match parse_fn(&text) { Ok(f) => f, Err(_) => return text };
        struct N<'a>(&'a [(String, std::ops::Range<usize>, Option<String>)], &'a Source, Option<(std::ops::Range<usize>, String)>);
        impl<'a, 'ast> Visit<'ast> for N<'a> {
            fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
                for a in &m.args {
                    if let syn::Expr::Path(p) = a { if let Some(id) = p.path.get_ident() { if let Some(h) = self.0.iter().find(|h| *id == h.0) {
                        if let Ok(hf) = parse_fn(&self.1.text[h.1.clone()]) {
                            let ps: Vec<String> = hf.sig.inputs.iter().filter_map(|i| match i { syn::FnArg::Typed(t) => match &*t.pat { syn::Pat::Ident(i) if i.subpat.is_none() => Some(i.ident.to_string()), _ => None }, _ => None }).collect();
                            if ps.len() == hf.sig.inputs.len() && !ps.is_empty() { self.2 = Some((rng(a), format!("|{}| {id}({})", ps.join(", "), ps.join(", ")))); return; }
                        }
                    } } }
                }
                visit::visit_expr_method_call(self, m);
            }
        }
        let mut n = N(&helpers, src, None);
        n.visit_impl_item_fn(&f);
        match n.2 { Some((r, t)) => text.replace_range(r, &t), None => break }
    }
    for _ in 0..30 {
        let f = match parse_fn(&text) { Ok(f) => f, Err(_) => return text };
        struct V<'a> { helpers: &'a [(String, std::ops::Range<usize>, Option<String>)], src: &'a Source, text: &'a str, self_ty: Option<&'a str>, outer_err: Option<String>, tried: Vec<std::ops::Range<usize>>, edit: Option<(std::ops::Range<usize>, String, String)> }
        impl<'a> V<'a> {
            fn build(&self, h: &(String, std::ops::Range<usize>, Option<String>), args: Vec<String>, recv_self: bool, tried: bool) -> Option<String> {
                let ht = &self.src.text[h.1.clone()];
                let hf = parse_fn(ht).ok()?;
                struct R(bool, usize);
                impl<'ast> Visit<'ast> for R {
                    fn visit_expr_return(&mut self, e: &'ast syn::ExprReturn) {
                        let err = e.expr.as_ref().map_or(false, |x| matches!(&**x, syn::Expr::Call(c) if matches!(&*c.func, syn::Expr::Path(p) if p.path.is_ident("Err"))));
                        if err { self.1 += 1; visit::visit_expr_return(self, e); } else { self.0 = true; }
                    }
                    fn visit_expr_try(&mut self, e: &'ast syn::ExprTry) { self.1 += 1; visit::visit_expr_try(self, e); }
                    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
                }
                let mut r = R(false, 0);
                r.visit_block(&hf.block);
                let mut shaped = None;
                if r.0 { shaped = Some(tail_block(ht, &hf.block.stmts)?); r.1 = if shaped.as_ref().unwrap().contains('?') { 1 } else { 0 }; }
                // an error leaving the helper leaves the caller: the call is followed by `?`
                if r.1 > 0 && !(tried && err_type(&hf).is_some() && err_type(&hf) == self.outer_err) { return None; }
                let gens: BTreeSet<String> = hf.sig.generics.type_params().map(|t| t.ident.to_string()).collect();
                let mut body = shaped.unwrap_or_else(|| ht[rng(&hf.block)].to_string());
                let mut lets = String::new();
                let mut pend: Vec<(String, String)> = vec![];
                let mut ai = args.into_iter();
                let mut has_self = false;
                for inp in &hf.sig.inputs {
                    match inp {
                        syn::FnArg::Receiver(_) => { has_self = true; if !recv_self { return None; } }
                        syn::FnArg::Typed(pt) => {
                            let a = ai.next()?;
                            let name = &ht[rng(&pt.pat)];
                            if let syn::Type::Reference(rf) = &*pt.ty {
                                if rf.mutability.is_some() {
                                    if let Some(place) = a.trim().strip_prefix("&mut ") {
                                        if !simple_place(place) { return None; }
                                        let root = place.trim().split('.').next().unwrap();
                                        if bindings(ht).iter().any(|b| b.0 == root) && root != name { return None; }
                                        body = subst_mut(&body, name, place.trim());
                                        continue;
                                    } else if a.trim() == name { continue; } else if a.chars().all(|c| c.is_alphanumeric() || c == '_') {
                                        body = rename_text(&body, &[(name.to_string(), a.trim().to_string())]);
                                        continue;
                                    }
                                    return None;
                                }
                            }
                            let ty = ht[rng(&pt.ty)].replace("'_", "");
                            let generic = ty.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| gens.contains(w));
                            if a.trim() != name { if generic { pend.push((format!("let {name}"), a)); } else { pend.push((format!("let {name}: {ty}"), a)); } }
                        }
                    }
                }
                let _ = has_self;
                // an argument may mention a name an earlier parameter takes
                let word = |s: &str, w: &str| s.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|x| x == w);
                let clash = (1..pend.len()).any(|j| (0..j).any(|i| word(&pend[j].1, pend[i].0[4..].trim_start_matches("mut ").split(':').next().unwrap().trim())));
                if clash { for (i, (_, a)) in pend.iter().enumerate() { lets.push_str(&format!("let vx_a{i} = {a}; ")); } for (i, (l, _)) in pend.iter().enumerate() { lets.push_str(&format!("{l} = vx_a{i}; ")); } }
                else { for (l, a) in &pend { lets.push_str(&format!("{l} = {a}; ")); } }
                if r.1 > 0 {
                    let ret = match &hf.sig.output { syn::ReturnType::Type(_, t) => ht[rng(&**t)].to_string(), _ => return None };
                    let ret = match h.0.rsplit_once("::") { Some((t, _)) => rename_text(&ret, &[("Self".to_string(), t.rsplit(' ').next().unwrap().to_string())]), None => ret };
                    return Some(format!("({{ {lets}let vx_in: {ret} = {body}; vx_in }})"));
                }
                Some(format!("{{ {lets}{body} }}"))
            }
        }
        fn simple_place(s: &str) -> bool { s.trim().chars().all(|c| c.is_alphanumeric() || c == '_' || c == '.') }
        fn subst_mut(body: &str, name: &str, place: &str) -> String {
            let b = rename_text(body, &[(name.to_string(), "\u{1}".to_string())]);
            b.replace("*\u{1}", place).replace("\u{1}.", &format!("{place}.")).replace("\u{1}", &format!("&mut {place}"))
        }
        impl<'a, 'ast> Visit<'ast> for V<'a> {
            fn visit_expr_try(&mut self, e: &'ast syn::ExprTry) { self.tried.push(rng(&*e.expr)); visit::visit_expr_try(self, e); }
            fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
                visit::visit_expr_call(self, c);
                if self.edit.is_some() { return; }
                if let syn::Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let name = segs.last().unwrap().clone();
                    for h in self.helpers {
                        let hn = h.0.rsplit("::").next().unwrap();
                        let ok = hn == name && ((segs.len() == 1 && h.2.is_none()) || (segs.len() == 2 && h.2.is_some() && (segs[0] == "Self" && self.self_ty == Some(h.0.split("::").next().unwrap()) || h.0.starts_with(&segs[0]))));
                        if ok {
                            let args = c.args.iter().map(|a| self.text[rng(a)].to_string()).collect();
                            if let Some(t) = self.build(h, args, false, self.tried.contains(&rng(c))) { self.edit = Some((rng(c), t, h.0.clone())); return; }
                        }
                    }
                }
            }
            fn visit_expr_method_call(&mut self, c: &'ast syn::ExprMethodCall) {
                visit::visit_expr_method_call(self, c);
                if self.edit.is_some() { return; }
                let recv = self.text[rng(&c.receiver)].trim().to_string();
                if !matches!(&*c.receiver, syn::Expr::Path(p) if p.path.get_ident().is_some()) { return; }
                for h in self.helpers {
                    if h.0.rsplit("::").next().unwrap() == c.method.to_string() && h.2.is_some() {
                        let args: Vec<String> = c.args.iter().map(|a| self.text[rng(a)].to_string()).collect();
                        if recv != "self" && (bindings(&self.src.text[h.1.clone()]).iter().any(|b| b.0 == recv) || args.iter().any(|a: &String| a.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| w == "self"))) { continue; }
                        if let Some(t) = self.build(h, args, true, self.tried.contains(&rng(c))) {
                            let t = if recv == "self" { t } else { rename_text(&t, &[("self".to_string(), recv.clone())]) }; self.edit = Some((rng(c), t, h.0.clone())); return; }
                    }
                }
            }
        }
        let mut v = V { helpers: &helpers, src, text: &text, self_ty, outer_err: err_type(&f), tried: vec![], edit: None };
        v.visit_impl_item_fn(&f);
        match v.edit { Some((r, t, n)) => { log.push(n); let mut nt = text.clone(); nt.replace_range(r, &t); text = nt; } None => return text }
    }
    text
}

// ---------- anchors ----------
/// the verifier forgets what an arm of a match with guards does to a place it changes
fn mutating_guard(f: &syn::ImplItemFn) -> bool {
    struct G { muts: std::collections::BTreeSet<String>, found: bool }
    impl<'ast> Visit<'ast> for G {
        fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) { if p.mutability.is_some() { self.muts.insert(p.ident.to_string()); } visit::visit_pat_ident(self, p); }
        fn visit_expr_match(&mut self, e: &'ast syn::ExprMatch) {
            visit::visit_expr_match(self, e);
            if e.arms.iter().any(|a| a.guard.is_some()) {
                struct U<'a>(&'a std::collections::BTreeSet<String>, bool);
                impl<'a, 'ast> Visit<'ast> for U<'a> {
                    fn visit_ident(&mut self, i: &'ast syn::Ident) { if self.0.contains(&i.to_string()) { self.1 = true; } }
                    fn visit_macro(&mut self, _: &'ast syn::Macro) { self.1 = true; }
                }
                for a in &e.arms { let mut u = U(&self.muts, false); u.visit_expr(&a.body); if u.1 { self.found = true; } }
            }
        }
    }
    let mut g = G { muts: Default::default(), found: false };
    for a in &f.sig.inputs {
        match a {
            syn::FnArg::Receiver(r) => if r.mutability.is_some() { g.muts.insert("self".into()); },
            syn::FnArg::Typed(t) => if let (syn::Pat::Ident(p), syn::Type::Reference(r)) = (&*t.pat, &*t.ty) { if r.mutability.is_some() { g.muts.insert(p.ident.to_string()); } },
        }
    }
    g.visit_block(&f.block);
    g.found
}
#[derive(Default)]
struct Anchors {
    loops: Vec<(std::ops::Range<usize>, std::ops::Range<usize>, std::ops::Range<usize>, Option<std::ops::Range<usize>>, Option<(usize, std::ops::Range<usize>)>)>, // stmt, whole, body, iter-expr, (for token, pattern)
    calls: BTreeMap<String, Vec<std::ops::Range<usize>>>, // name -> stmt ranges
    ifs: Vec<(std::ops::Range<usize>, Option<std::ops::Range<usize>>)>,
    arms: Vec<Vec<(String, std::ops::Range<usize>, bool)>>,
    closures: Vec<(std::ops::Range<usize>, std::ops::Range<usize>, Vec<std::ops::Range<usize>>, std::ops::Range<usize>, bool)>,
    returns: Vec<(std::ops::Range<usize>, std::ops::Range<usize>)>,
    keys: [Vec<(String, String)>; 4], // what tells loops, conditions, matches and closures apart
}
/// where the k-th loop (condition, match, closure) of the baseline is now
struct Places([Vec<Option<usize>>; 4], [usize; 4], Vec<usize>); // and how many there are that the baseline does not have, and which loops have both a new head and a new body
impl Places {
    fn get(&self, kind: usize, k: usize) -> usize { match self.0[kind].get(k) { Some(Some(i)) => *i, Some(None) => usize::MAX, None => k } }
}
fn flat(t: &str) -> String { t.split_whitespace().collect() }
fn places(base: &str, cur: &Anchors, map: &[(String, String)]) -> Places {
    let none = Places(Default::default(), [0; 4], vec![]);
    let f = match parse_fn(base) { Ok(f) => f, Err(_) => return none };
    let mut v = AV { a: Anchors::default(), stmts: vec![], text: base };
    v.visit_impl_item_fn(&f);
    let mut out: [Vec<Option<usize>>; 4] = Default::default();
    let mut extra = [0; 4];
    let mut rewritten = vec![];
    for kind in 0..4 {
        let b: Vec<(String, String)> = v.a.keys[kind].iter().map(|k| (flat(&rename_text(&k.0, map)), flat(&rename_text(&k.1, map)))).collect();
        let c: Vec<(String, String)> = cur.keys[kind].iter().map(|k| (flat(&k.0), flat(&k.1))).collect();
        let mut to: Vec<Option<usize>> = vec![None; b.len()];
        let mut used = vec![false; c.len()];
        for i in 0..b.len() { if let Some(j) = (0..c.len()).find(|j| !used[*j] && c[*j].1 == b[i].1) { to[i] = Some(j); used[j] = true; } }
        for i in 0..b.len() { if to[i].is_none() { if let Some(j) = (0..c.len()).find(|j| !used[*j] && c[*j].0 == b[i].0) { to[i] = Some(j); used[j] = true; } } }
        let rest: Vec<usize> = (0..c.len()).filter(|j| !used[*j]).collect();
        let open: Vec<usize> = (0..b.len()).filter(|i| to[*i].is_none()).collect();
        if rest.len() == open.len() { for (i, j) in open.into_iter().zip(rest) { to[i] = Some(j); used[j] = true; } }
        else { for i in open { if i < c.len() && !used[i] { to[i] = Some(i); used[i] = true; } } }
        if kind == 0 { for (i, j) in to.iter().enumerate() { if let Some(j) = j {
            let body = |k: &(String, String)| k.1.strip_prefix(k.0.as_str()).unwrap_or(&k.1).to_string();
            if b[i].0 != c[*j].0 && body(&b[i]) != body(&c[*j]) { rewritten.push(i); }
        } } }
        extra[kind] = used.iter().filter(|u| !**u).count();
        out[kind] = to;
    }
    Places(out, extra, rewritten)
}
struct AV<'a> { a: Anchors, stmts: Vec<std::ops::Range<usize>>, text: &'a str }
impl<'a> AV<'a> { fn cur(&self) -> std::ops::Range<usize> { self.stmts.last().cloned().unwrap_or(0..0) } }
impl<'a, 'ast> Visit<'ast> for AV<'a> {
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) { self.stmts.push(rng(s)); visit::visit_stmt(self, s); self.stmts.pop(); }
    fn visit_expr_while(&mut self, e: &'ast syn::ExprWhile) { let c = self.cur(); self.a.keys[0].push((format!("while {}", &self.text[rng(&e.cond)]), self.text[rng(e)].to_string())); self.a.loops.push((c, rng(e), rng(&e.body), None, None)); visit::visit_expr_while(self, e); }
    fn visit_expr_for_loop(&mut self, e: &'ast syn::ExprForLoop) { let c = self.cur(); self.a.keys[0].push((format!("for {} in {}", &self.text[rng(&*e.pat)], &self.text[rng(&*e.expr)]), self.text[rng(e)].to_string())); self.a.loops.push((c, rng(e), rng(&e.body), Some(rng(&e.expr)), Some((e.for_token.span.byte_range().start, rng(&*e.pat))))); visit::visit_expr_for_loop(self, e); }
    fn visit_expr_loop(&mut self, e: &'ast syn::ExprLoop) { let c = self.cur(); self.a.keys[0].push(("loop".into(), self.text[rng(e)].to_string())); self.a.loops.push((c, rng(e), rng(&e.body), None, None)); visit::visit_expr_loop(self, e); }
    fn visit_expr_method_call(&mut self, e: &'ast syn::ExprMethodCall) { visit::visit_expr_method_call(self, e); let c = self.cur(); self.a.calls.entry(e.method.to_string()).or_default().push(c); }
    fn visit_expr_call(&mut self, e: &'ast syn::ExprCall) {
        visit::visit_expr_call(self, e);
        if let syn::Expr::Path(p) = &*e.func { let c = self.cur(); self.a.calls.entry(p.path.segments.last().unwrap().ident.to_string()).or_default().push(c); }
    }
    fn visit_expr_if(&mut self, e: &'ast syn::ExprIf) {
        let el = e.else_branch.as_ref().and_then(|x| if let syn::Expr::Block(b) = &*x.1 { Some(rng(&b.block)) } else { None });
        self.a.keys[1].push((self.text[rng(&e.cond)].to_string(), self.text[rng(e)].to_string()));
        self.a.ifs.push((rng(&e.then_branch), el));
        visit::visit_expr_if(self, e);
    }
    fn visit_expr_match(&mut self, e: &'ast syn::ExprMatch) {
        self.a.keys[2].push((self.text[rng(&e.expr)].to_string(), self.text[rng(e)].to_string()));
        self.a.arms.push(e.arms.iter().map(|a| (self.text[rng(&a.pat)].split_whitespace().collect::<String>(), rng(&a.body), matches!(&*a.body, syn::Expr::Block(_)))).collect());
        visit::visit_expr_match(self, e);
    }
    fn visit_expr_closure(&mut self, e: &'ast syn::ExprClosure) {
        let hs = rng(e).start;
        let he = e.or2_token.span.byte_range().end;
        self.a.keys[3].push((e.inputs.iter().map(|p| self.text[rng(p)].to_string()).collect::<Vec<_>>().join(","), self.text[rng(e)].to_string()));
        self.a.closures.push((hs..he, rng(&e.body), e.inputs.iter().map(|p| rng(p)).collect(), rng(e), matches!(&*e.body, syn::Expr::Block(_))));
        visit::visit_expr_closure(self, e);
    }
    fn visit_expr_return(&mut self, e: &'ast syn::ExprReturn) { let c = self.cur(); self.a.returns.push((c, rng(e))); visit::visit_expr_return(self, e); }
}

fn weave_fn(text: &str, base: &str, spec: &FnSpec, map: &[(String, String)], vacuity: bool, lost: &mut Vec<String>, vac: &mut bool) -> Result<String, String> {
    let mut text = text.to_string();
    // closures first (their headers are replaced), innermost last so offsets stay valid: process from the back
    if !spec.closures.is_empty() {
        let f = parse_fn(&text)?;
        let mut v = AV { a: Anchors::default(), stmts: vec![], text: &text };
        v.visit_impl_item_fn(&f);
        let pl = places(base, &v.a, map);
        let cl = v.a.closures;
        let mut edits: Vec<(std::ops::Range<usize>, String)> = vec![];
        for (k, hdr) in &spec.closures {
            match cl.get(pl.get(3, *k)) {
                None => lost.push(format!("closure {k}")),
                Some((h, b, inputs, _whole, is_block)) => {
                    let mut lets = String::new();
                    for (i, r) in inputs.iter().enumerate() {
                        let p = &text[r.clone()];
                        let nm = p.trim();
                        if !hdr.contains(&format!("vx_p{i}")) { continue; }
                        if let Some(x) = nm.strip_prefix('&') { if x.chars().all(|c| c.is_alphanumeric() || c == '_') { lets.push_str(&format!("let {x} = *vx_p{i}; ")); continue; } }
                        lets.push_str(&format!("let {} = vx_p{i}; ", nm.trim_start_matches("mut ")));
                    }
                    edits.push((h.clone(), rename_ann(hdr, map)));
                    if !*is_block || !lets.is_empty() { edits.push((b.start..b.start, format!(" {{ {lets}"))); edits.push((b.end..b.end, " }".into())); } else { edits.push((b.start..b.start, " ".into())); }
                }
            }
        }
        // closures with Verus headers no longer parse with syn: postpone by placeholders
        edits.sort_by_key(|e| e.0.start);
        let _ = &edits;
        return weave_rest(&mut text, base, spec, map, vacuity, lost, vac, edits);
    }
    weave_rest(&mut text, base, spec, map, vacuity, lost, vac, vec![])
}
fn weave_rest(text: &mut String, base: &str, spec: &FnSpec, map: &[(String, String)], vacuity: bool, lost: &mut Vec<String>, vac: &mut bool, pre: Vec<(std::ops::Range<usize>, String)>) -> Result<String, String> {
    let f = parse_fn(text)?;
    let mut v = AV { a: Anchors::default(), stmts: vec![], text };
    v.visit_impl_item_fn(&f);
    let a = v.a;
    let pl = places(base, &a, map);
    if pl.1[0] > 0 { lost.push(format!("{} new loop(s) without an invariant", pl.1[0])); }
    for k in &pl.2 { lost.push(format!("loop {k} was rewritten")); }
    if mutating_guard(&f) { lost.push("a match with a guard and an arm that changes state".into()); }
    if pl.1[3] > 0 { lost.push(format!("{} new closure(s) without a contract", pl.1[3])); }
    // (pos_start, pos_end, text, order)
    let mut ins: Vec<(usize, usize, i32, String)> = vec![];
    for (r, t) in pre { ins.push((r.start, r.end, 0, t)); }
    let block = rng(&f.block);
    let mut hoists: Vec<(usize, std::ops::Range<usize>, String, String)> = vec![];
    // signature
    if let Some(r) = &spec.ret {
        if let syn::ReturnType::Type(_, ty) = &f.sig.output { let tr = rng(ty); ins.push((tr.start, tr.start, 0, format!("({r}: "))); ins.push((tr.end, tr.end, 0, ")".into())); }
        else { lost.push("return type".into()); }
    }
    if let Some(n) = &spec.rename { let r = rng(&f.sig.ident); ins.push((r.start, r.end, 0, n.clone())); }
    // a contract speaks of parameters only
    let params: Vec<String> = f.sig.inputs.iter().flat_map(|a| match a { syn::FnArg::Typed(t) => text[rng(&t.pat)].split(|c: char| !c.is_alphanumeric() && c != '_').map(|x| x.to_string()).collect::<Vec<_>>(), _ => vec![] }).collect();
    let pmap: Vec<(String, String)> = map.iter().filter(|m| params.contains(&m.1)).cloned().collect();
    ins.push((block.start, block.start, 5, format!("\n{}\n", rename_ann(&spec.contract, &pmap))));
    let tail_start = match f.block.stmts.last() {
        Some(syn::Stmt::Expr(e, None)) => {
            if matches!(f.sig.output, syn::ReturnType::Default) {
                // a unit function: what follows the last expression is the exit
                let p = rng(e).end;
                if !matches!(e, syn::Expr::If(_) | syn::Expr::Match(_) | syn::Expr::While(_) | syn::Expr::ForLoop(_) | syn::Expr::Loop(_) | syn::Expr::Block(_)) { ins.push((p, p, 0, ";".into())); }
                None
            } else { Some(rng(e).start) }
        }
        _ => None,
    };
    let exit_pos = tail_start.unwrap_or(block.end - 1);
    for (anchor, body) in &spec.anns {
        let body = format!("\n{}\n", rename_ann(body, if anchor == "entry" { &pmap } else { map }));
        let w: Vec<&str> = anchor.split_whitespace().collect();
        let mut ok = true;
        match w.as_slice() {
            ["entry"] => ins.push((block.start + 1, block.start + 1, 1, body)),
            ["exit"] => ins.push((exit_pos, exit_pos, 1, body)),
            // the value of the tail expression is named vx_res
            ["result"] => match (tail_start, f.block.stmts.last()) {
                (Some(p), Some(s)) => { let e = rng(s).end; ins.push((p, p, 4, "let vx_res = ".into())); ins.push((e, e, 4, format!(";{body}vx_res"))); }
                _ => ok = false,
            },
            ["loop", k, what, rest @ ..] => {
                match a.loops.get(pl.get(0, k.parse::<usize>().unwrap())) {
                    None => ok = false,
                    Some((stmt, whole, lbody, iter, pat)) => match *what {
                        "inv" => ins.push((lbody.start, lbody.start, 1, body)),
                        "start" => ins.push((lbody.start + 1, lbody.start + 1, 1, body)),
                        "end" => ins.push((lbody.end - 1, lbody.end - 1, 1, body)),
                        "before" => ins.push((stmt.start, stmt.start, 1, body)),
                        "after" => ins.push((stmt.end, stmt.end, 1, body)),
                        "attr" => ins.push((whole.start, whole.start, 2, rest.join(" "))),
                        "iter" => match iter { Some(p) => ins.push((p.start, p.start, 1, format!("{}: ", rest[0]))), None => ok = false },
                        // `for p in e` written out: the iterator is a variable and `next` is called on it
                        "next" => match (iter, pat) {
                            (Some(p), Some((f, q))) => {
                                ins.push((stmt.start, stmt.start, 0, format!("let mut {} = {};\n", rest[0], &text[p.clone()])));
                                ins.push((*f, lbody.start, 3, "loop ".into()));
                                ins.push((lbody.start + 1, lbody.start + 1, 0, format!(" let {} = match {}.next() {{ Some(vx_x) => vx_x, None => break }};\n", &text[q.clone()], rest[0])));
                            }
                            _ => ok = false,
                        },
                        // the iterated list is evaluated into a variable first
                        "hoist" => match iter { Some(p) => hoists.push((stmt.start, p.clone(), rest[0].to_string(), rest.get(1).map(|x| x.to_string()).unwrap_or_default())), None => ok = false },
                        _ => panic!("bad anchor {anchor}"),
                    },
                }
            }
            [side @ ("after-call" | "before-call"), name, k] => match a.calls.get(*name).and_then(|v| v.get(k.parse::<usize>().unwrap())) {
                None => ok = false,
                Some(r) => { let p = if *side == "after-call" { r.end } else { r.start }; ins.push((p, p, 1, body)); }
            },
            ["if", k, br] => match a.ifs.get(pl.get(1, k.parse::<usize>().unwrap())) {
                None => ok = false,
                Some((t, e)) => match (*br, e) { ("then", _) => ins.push((t.start + 1, t.start + 1, 1, body)), ("then-end", _) => ins.push((t.end - 1, t.end - 1, 1, body)), ("else", Some(e)) => ins.push((e.start + 1, e.start + 1, 1, body)), ("else-end", Some(e)) => ins.push((e.end - 1, e.end - 1, 1, body)), _ => ok = false },
            },
            ["arm", k, pat] => match a.arms.get(pl.get(2, k.parse::<usize>().unwrap())).and_then(|v| v.iter().find(|x| x.0.starts_with(pat))) {
                None => ok = false,
                Some((_, r, blk)) => if *blk { ins.push((r.start + 1, r.start + 1, 1, body)) } else { ins.push((r.start, r.start, 1, format!("{{ {body} "))); ins.push((r.end, r.end, 1, " }".into())); },
            },
            ["return", k] => match a.returns.get(k.parse::<usize>().unwrap()) {
                None => ok = false,
                Some((stmt, _)) => ins.push((stmt.start, stmt.start, 1, body)),
            },
            _ => panic!("bad anchor {anchor}"),
        }
        if !ok { lost.push(anchor.clone()); }
    }
    if vacuity && !spec.opts.iter().any(|o| o == "novac") {
        *vac = true;
        let p = if spec.opts.iter().any(|o| o == "vac-entry") { block.start + 1 } else { exit_pos };
        ins.push((p, p, 3, "\nassert(false);\n".into()));
    }
    for (at, p, name, via) in hoists {
        // edits inside the hoisted expression (closure headers) move with it
        let mut inner: Vec<(usize, usize, i32, String)> = vec![];
        ins.retain(|x| if x.0 >= p.start && x.1 <= p.end && !(x.0 == p.start && x.1 == p.start) { inner.push(x.clone()); false } else { true });
        inner.sort_by_key(|x| (x.0, x.2));
        let mut e = String::new();
        let mut q = p.start;
        for (s, en, _, t) in inner { if s < q { return Err("overlapping annotations".into()); } e.push_str(&text[q..s]); e.push_str(&t); q = en; }
        e.push_str(&text[q..p.end]);
        ins.push((at, at, 0, if via.is_empty() { format!("let {name} = {e};\n") } else { format!("let {name} = {via}({e});\n") }));
        ins.push((p.start, p.end, 2, name));
    }
    ins.sort_by_key(|x| (x.0, x.2));
    let mut out = String::new();
    let mut pos = 0;
    for (s, e, _, t) in ins {
        if s < pos { return Err("overlapping annotations".into()); }
        out.push_str(&text[pos..s]);
        out.push_str(&t);
        pos = e;
    }
    out.push_str(&text[pos..]);
    Ok(out)
}

fn strip_vis_attrs(text: &str) -> String {
    // on a type definition
    let it: syn::Item = match syn::parse_str(text) { Ok(i) => i, Err(_) => return text.to_string() };
    struct V(Vec<std::ops::Range<usize>>);
    impl<'ast> Visit<'ast> for V {
        fn visit_visibility(&mut self, v: &'ast syn::Visibility) { if !matches!(v, syn::Visibility::Inherited) { self.0.push(rng(v)); } }
        fn visit_attribute(&mut self, a: &'ast syn::Attribute) { self.0.push(rng(a)); }
    }
    let mut v = V(vec![]);
    v.visit_item(&it);
    v.0.sort_by_key(|r| r.start);
    let mut t = text.to_string();
    for r in v.0.into_iter().rev() { t.replace_range(r, ""); }
    t
}

pub fn weave(u: &Unit, root: &str, cache: &mut BTreeMap<String, Source>, vacuity: bool, stubs: &[String], open: &[String]) -> Res {
    let mut res = Res { text: String::new(), fns: vec![], errors: vec![] };
    let base_root = format!("{}/../baseline", u.udir);
    let mut name_lits = BTreeSet::new();
    let mut macros = BTreeMap::new();
    for m in &u.macros {
        let s = load(cache, root, m);
        match &s.file { Ok(f) => macros.extend(rewrite::file_macros(&s.text, f)), Err(e) => res.errors.push(e.clone()) }
    }
    let mut out = String::from("#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_assignments, unused_parens, unused_braces, non_snake_case, unreachable_code, unused_must_use, unused_labels, non_upper_case_globals)]\nuse vstd::prelude::*;\nverus! {\n");
    for it in &u.items {
        match it {
            Item::Verbatim(t) => { out.push_str(t); out.push('\n'); }
            Item::ConstLit { .. } => {}
            Item::NameSpec { spec, name, ty } => {
                load(cache, &base_root, &spec.src);
                load(cache, root, &spec.src);
                let s = &cache[&format!("{root}/{}", spec.src)];
                let bs = &cache[&format!("{base_root}/{}", spec.src)];
                let mut fo = FnOut { path: spec.path.clone(), src: spec.src.clone(), lines: (0, 0), out: (0, 0), props: vec![], lost: vec![], log: vec![], renames: vec![], inlined: vec![], changed: false, missing: false, vac: false, name: String::new(), stubbed: false };
                match prepare(u, spec, s, bs, &macros, &mut fo).ok().and_then(|(t, _, _, _)| name_table(&t, ty)) {
                    Some(t) => { str_lits(&t, &mut name_lits); out.push_str(&format!("spec fn {name}(e: {ty}) -> Seq<char> {{ match e {{ {t} }} }}\n")) }
                    None => { out.push_str(&format!("uninterp spec fn {name}(e: {ty}) -> Seq<char>;\n")); res.errors.push(format!("{}: no table of names", spec.path)); }
                }
            }
            Item::Type { src, name, head, subst } => {
                let s = load(cache, root, src);
                let f = match &s.file { Ok(f) => f, Err(e) => { res.errors.push(e.clone()); continue; } };
                let mut items = vec![];
                all_items(&f.items, &mut items);
                let mut done = false;
                for i in &items {
                    let nm = match i { syn::Item::Struct(x) => x.ident.to_string(), syn::Item::Enum(x) => x.ident.to_string(), syn::Item::Static(x) => x.ident.to_string(), syn::Item::Const(x) => x.ident.to_string(), syn::Item::Type(x) => x.ident.to_string(), _ => continue };
                    if nm == *name {
                        let mut t = strip_vis_attrs(&s.text[rng(i)]);
                        // an immutable static is read as a constant
                        if let syn::Item::Static(x) = i { if matches!(x.mutability, syn::StaticMutability::None) { t = t.replacen("static ", "const ", 1); } }
                        for (a, b) in subst { if !t.contains(a.as_str()) { res.errors.push(format!("lost type anchor {name}: {a}")); } t = t.replace(a.as_str(), b); }
                        out.push_str(head); out.push_str(&t); out.push('\n');
                        done = true;
                    }
                }
                if !done { res.errors.push(format!("type {name} not found in {src}")); }
            }
            Item::Fn(spec) => {
                let mut fo = FnOut { path: spec.path.clone(), src: spec.src.clone(), lines: (0, 0), out: (0, 0), props: spec.props.clone(), lost: vec![], log: vec![], renames: vec![], inlined: vec![], changed: false, missing: false, vac: false, name: String::new(), stubbed: stubs.contains(&spec.path) };
                let elsewhere = spec.opts.iter().any(|o| o == "elsewhere");
                if elsewhere { fo.stubbed = true; fo.props.clear(); }
                fo.name = spec.rename.clone().or_else(|| spec.path.split_once('@').map(|(a, b)| spec_name(a, b))).unwrap_or_else(|| spec.path.rsplit("::").next().unwrap().replace("static:", "vx_static_"));
                let bs_file = { load(cache, &base_root, &spec.src); format!("{base_root}/{}", spec.src) };
                load(cache, root, &spec.src);
                let s = &cache[&format!("{root}/{}", spec.src)];
                let bs = &cache[&bs_file];
                if let Err(e) = &s.file { if !res.errors.contains(e) { res.errors.push(e.clone()); } }
                let mut r = prepare(u, spec, s, bs, &macros, &mut fo).and_then(|(text, base, map, hdr)| {
                    if fo.stubbed { return Err("stubbed".into()); }
                    weave_fn(&text, &base, spec, &map, vacuity, &mut fo.lost, &mut fo.vac).map(|t| (t, hdr))
                });
                if let Err(e) = &r {
                    if !fo.stubbed { res.errors.push(format!("{}: {e}", spec.path)); }
                    fo.stubbed = true;
                    fo.vac = false;
                    // contract only: the callers are still checked against it
                    let mut sp = spec.clone();
                    sp.anns.clear(); sp.closures.clear(); sp.attrs.push("#[verifier::external_body]".into());
                    let mut tmp = FnOut { path: String::new(), src: String::new(), lines: (0, 0), out: (0, 0), props: vec![], lost: vec![], log: vec![], renames: vec![], inlined: vec![], changed: false, missing: false, vac: false, name: String::new(), stubbed: true };
                    for source in [s, bs] {
                        let got = prepare_stub(&sp, source, &macros, u, &mut tmp).and_then(|(text, hdr)| weave_fn(&text, "", &sp, &[], false, &mut tmp.lost, &mut tmp.vac).map(|t| (format!("#[verifier::external_body]{}\n{t}", if elsewhere { " // discharged elsewhere" } else { "" }), hdr)));
                        if got.is_ok() { r = got; break; }
                    }
                }
                match r {
                    Ok((mut t, found_hdr)) => {
                        if t.contains("VX_REVEAL_LITS;") {
                            let mut ls = BTreeSet::new();
                            str_lits(&t, &mut ls);
                            for n in &name_lits { ls.insert(n.clone()); }
                            t = t.replace("VX_REVEAL_LITS;", &ls.iter().map(|l| { let v = syn::parse_str::<syn::LitStr>(l).map(|x| x.value()).unwrap_or_default(); format!("reveal_strlit({l}); assert({l}@.len() == {}{}); ", v.chars().count(), v.chars().enumerate().map(|(i, c)| format!(" && {l}@[{i}] == {c:?}")).collect::<String>()) }).collect::<String>());
                        }
                        let start = out.matches('\n').count() + 1;
                        out.push_str(&format!("// ==== {} from {}:{}-{}\n", spec.path, spec.src, fo.lines.0, fo.lines.1));
                        let mut body = String::new();
                        if open.contains(&spec.path) && !fo.stubbed && !spec.attrs.iter().any(|a| a.contains("loop_isolation")) { body.push_str("#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]\n"); }
                        for at in &spec.attrs { if !(fo.stubbed && (at.contains("external_body") || at.contains("loop_isolation") || at.contains("spinoff"))) { body.push_str(at); body.push('\n'); } }
                        body.push_str(&t);
                        let clo = spec.path.contains('~');
                        let hdr = spec.inherent.clone().or_else(|| if spec.free || clo && !spec.sig.as_deref().unwrap_or("").contains("self") { None } else { found_hdr });
                        match hdr { Some(h) => out.push_str(&format!("{h} {{\n{body}\n}}\n")), None => { out.push_str(&body); out.push('\n'); } }
                        fo.out = (start, out.matches('\n').count());
                    }
                    Err(_) => {}
                }
                if !elsewhere { res.fns.push(fo); }
            }
        }
    }
    out.push_str("\n} // verus!\nfn main() {}\n");
    res.text = out;
    res
}
/// the plain string literals of a text
fn str_lits(t: &str, out: &mut BTreeSet<String>) {
    fn go(ts: proc_macro2::TokenStream, out: &mut BTreeSet<String>) {
        for x in ts { match x { proc_macro2::TokenTree::Group(g) => go(g.stream(), out), proc_macro2::TokenTree::Literal(l) => { let l = l.to_string(); if l.starts_with('"') { out.insert(l); } } _ => {} } }
    }
    if let Ok(ts) = t.parse() { go(ts, out) }
}
/// the arms of the first match whose arms are variants with string literals
fn name_table(text: &str, ty: &str) -> Option<String> {
    use syn::visit::{self, Visit};
    fn last(p: &syn::Pat) -> Option<String> {
        match p {
            syn::Pat::Ident(i) if i.subpat.is_none() => Some(i.ident.to_string()),
            syn::Pat::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
            syn::Pat::Reference(r) => last(&r.pat),
            syn::Pat::Paren(r) => last(&r.pat),
            _ => None,
        }
    }
    struct F<'a> { text: &'a str, ty: &'a str, found: Option<String> }
    impl<'a, 'ast> Visit<'ast> for F<'a> {
        fn visit_expr_match(&mut self, e: &'ast syn::ExprMatch) {
            let mut o = String::new();
            for a in &e.arms {
                let lit = match &*a.body { syn::Expr::Lit(l) if matches!(l.lit, syn::Lit::Str(_)) => &self.text[rng(&a.body)], _ => { visit::visit_expr_match(self, e); return } };
                let cs: Vec<&syn::Pat> = match &a.pat { syn::Pat::Or(o) => o.cases.iter().collect(), p => vec![p] };
                if a.guard.is_some() { return }
                for c in cs {
                    if let syn::Pat::Wild(_) = c { o.push_str(&format!("_ => {lit}@, ")); continue; }
                    match last(c) { Some(v) => o.push_str(&format!("{}::{v} => {lit}@, ", self.ty)), None => { visit::visit_expr_match(self, e); return } }
                }
            }
            if self.found.is_none() && !o.is_empty() { self.found = Some(o); }
        }
    }
    let f = parse_fn(text).ok()?;
    let mut v = F { text, ty, found: None };
    v.visit_impl_item_fn(&f);
    v.found
}
/// find all occurrences of `pat` in `text`, ignoring whitespace differences
fn norm_find(text: &str, pat: &str) -> Vec<std::ops::Range<usize>> {
    let p: Vec<char> = pat.chars().filter(|c| !c.is_whitespace()).collect();
    let t: Vec<(usize, char)> = text.char_indices().filter(|c| !c.1.is_whitespace()).collect();
    let mut out = vec![];
    let mut i = 0;
    while i + p.len() <= t.len() {
        if (0..p.len()).all(|k| t[i + k].1 == p[k]) {
            let end = t[i + p.len() - 1];
            out.push(t[i].0..end.0 + end.1.len_utf8());
            i += p.len();
        } else { i += 1; }
    }
    out
}
#[allow(dead_code)]
fn _u<T: Spanned>(_: T) {}

type Prepared = (String, String, Vec<(String, String)>, Option<String>);
fn split_clo(path: &str) -> (String, Option<usize>) {
    match path.split_once('~') { Some((a, b)) => (a.to_string(), Some(b.parse::<usize>().unwrap())), None => (path.to_string(), None) }
}
fn clo_text(spec: &FnSpec, t: &str, k: usize) -> Option<String> {
    closure_of(t, k).map(|(b, ps)| {
        let sig = spec.sig.clone().unwrap_or_default();
        let mut lets = String::new();
        for (i, p) in ps.iter().enumerate() { lets.push_str(&format!("let {} = vx_p{i}; ", p.trim())); }
        format!("{} {{ {lets} {b} }}", sig.trim())
    })
}
/// the current text of the function after inlining of new helpers and the recorded rewrites
fn prepare(u: &Unit, spec: &FnSpec, s: &Source, bs: &Source, macros: &BTreeMap<String, rewrite::MacroDef>, fo: &mut FnOut) -> Result<Prepared, String> {
    let (fpath, clo) = split_clo(&spec.path);
    let known: BTreeSet<String> = list_fns(bs).into_iter().map(|x| x.0).collect();
    let bfound = find_fn(bs, &fpath).map(|f| f.text);
    let found = match find_fn(s, &fpath) { Some(f) => f, None => { fo.missing = true; return Err(format!("function not found in {}", spec.src)); } };
    fo.lines = found.lines;
    let mut text = found.text.clone();
    let mut btext = bfound.unwrap_or_default();
    fo.changed = btext != text;
    if let Some(k) = clo {
        match clo_text(spec, &text, k) { Some(t) => text = t, None => { fo.missing = true; return Err("closure not found".into()); } }
        btext = clo_text(spec, &btext, k).unwrap_or_default();
    }
    let self_ty = fpath.rsplit_once("::").map(|x| x.0.rsplit(' ').next().unwrap().to_string());
    text = inline_new(&text, s, &known, self_ty.as_deref(), &mut fo.inlined);
    if fo.changed { text = crate::simplify::simplify(text, &btext, &mut fo.log); }
    text = use_special(text, u, &spec.path);
    btext = use_special(btext, u, &spec.path);
    let cfg = rewrite::Cfg { macros, methods: &u.methods, paths: &u.paths, opaque_format: spec.opts.iter().any(|o| o == "opaque-format"), eq_call: spec.opts.iter().any(|o| o == "eq-call"), ref_iter: spec.opts.iter().any(|o| o == "ref-iter") };
    let mut dummy = vec![];
    text = rewrite::rewrite_all(text, &cfg, &mut fo.log)?;
    let mut btext2 = rewrite::rewrite_all(btext.clone(), &cfg, &mut dummy).unwrap_or(btext);
    if !spec.path.starts_with("static:") {
        let statics: Vec<(String, String)> = u.items.iter().filter_map(|i| if let Item::Fn(f) = i { f.path.strip_prefix("static:").map(|n| (n.to_string(), format!("vx_static_{n}()"))) } else { None }).collect();
        text = rename_text(&text, &statics);
        btext2 = rename_text(&btext2, &statics);
    }
    for (a, b) in &spec.substs {
        let n = norm_find(&text, a);
        if n.is_empty() { fo.lost.push(format!("subst {a}")); } else { fo.log.push(format!("per-site rewrite: {a} => {b}")); }
        for r in n.into_iter().rev() { text.replace_range(r, b); }
        for r in norm_find(&btext2, a).into_iter().rev() { btext2.replace_range(r, b); }
    }
    let map = if fo.changed { rename_map(&btext2, &text) } else { vec![] };
    fo.renames = map.clone();
    Ok((text, btext2, map, found.header))
}
fn prepare_stub(spec: &FnSpec, s: &Source, macros: &BTreeMap<String, rewrite::MacroDef>, u: &Unit, _fo: &mut FnOut) -> Result<(String, Option<String>), String> {
    let (fpath, clo) = split_clo(&spec.path);
    let found = find_fn(s, &fpath).ok_or("not found")?;
    let text = match clo { Some(_) => format!("{} {{ }}", spec.sig.clone().unwrap_or_default().trim()), None => found.text };
    let cfg = rewrite::Cfg { macros, methods: &u.methods, paths: &u.paths, opaque_format: true, eq_call: false, ref_iter: false };
    let mut text = rewrite::rewrite_all(text.clone(), &cfg, &mut vec![]).unwrap_or(text);
    for (a, b) in &spec.substs { for r in norm_find(&text, a).into_iter().rev() { text.replace_range(r, b); } }
    let f = parse_fn(&text).map_err(|e| e.to_string())?;
    let b = rng(&f.block);
    Ok((format!("{}{{ unimplemented!() }}", &text[..b.start]), found.header))
}
