//! Parser of unit files. Lines starting with `@` are directives; everything else belongs to the
//! directive above it.
#[derive(Debug, Clone, Default)]
pub struct FnSpec {
    pub src: String,
    pub path: String, // "name", "Type::name", "Trait for Type::name"
    pub props: Vec<String>,
    pub ret: Option<String>,
    pub sig: Option<String>,       // replaced signature pieces: "generics=..."; rarely used
    pub contract: String,
    pub anns: Vec<(String, String)>, // anchor, text
    pub substs: Vec<(String, String)>,
    pub closures: Vec<(usize, String)>, // n-th closure header replacement
    pub attrs: Vec<String>,
    pub rename: Option<String>,
    pub baseline: Option<String>,
    pub free: bool,
    pub inherent: Option<String>,
    pub opts: Vec<String>,
}
#[derive(Debug, Clone)]
pub enum Item {
    Verbatim(String),
    Type { src: String, name: String, head: String, subst: Vec<(String, String)> },
    Fn(FnSpec),
    /// closure extracted as a function: src, path of the containing fn, locator, header
    ConstLit { src: String, name: String, path: String },
    /// `@namespec PATH NAME TYPE`: the table of string literals a match of the function yields per value
    NameSpec { spec: FnSpec, name: String, ty: String },
}
#[derive(Debug, Clone, Default)]
pub struct Unit {
    pub items: Vec<Item>,
    pub methods: Vec<(String, String)>, pub defaults: Vec<(String, String)>,
    pub paths: Vec<(String, String)>,
    pub drop_macros: Vec<String>,
    pub prelude: String,
    pub macros: Vec<String>,
    pub known_fns: Vec<String>,
    pub udir: String,
}
fn two(s: &str) -> (String, String) {
    let mut it = s.splitn(2, "=>");
    (it.next().unwrap().trim().to_string(), it.next().unwrap_or("").trim().to_string())
}
pub fn parse(text: &str, udir: &std::path::Path) -> Unit {
    let mut u = Unit { udir: udir.to_string_lossy().to_string(), ..Default::default() };
    let mut src = String::new();
    // split in directives
    let mut chunks: Vec<(String, String)> = Vec::new();
    // `@contracts f` reads f like `@include f` but takes only the contracts of its functions: their
    // bodies are discharged in the unit that includes the file
    fn load(text: &str, udir: &std::path::Path, chunks: &mut Vec<(String, String)>, only: bool, seen: &mut Vec<String>) {
        for line in text.lines() {
            if let Some(rest) = line.strip_prefix('@') {
                if let Some(f) = rest.strip_prefix("include ") {
                    if seen.iter().any(|x| x == f.trim()) { continue; }
                    seen.push(f.trim().to_string());
                    let t = std::fs::read_to_string(udir.join(f.trim())).expect("include");
                    load(&t, udir, chunks, only, seen);
                    chunks.push(("verbatim".into(), String::new()));
                    continue;
                }
                if let Some(f) = rest.strip_prefix("contracts ") {
                    let t = std::fs::read_to_string(udir.join(f.trim())).expect("include");
                    load(&t, udir, chunks, true, seen);
                    chunks.push(("verbatim".into(), String::new()));
                    continue;
                }
                chunks.push((rest.trim().to_string(), String::new()));
                if only && rest.starts_with("fn ") { chunks.push(("opt elsewhere".to_string(), String::new())); }
            } else if let Some(c) = chunks.last_mut() {
                c.1.push_str(line);
                c.1.push('\n');
            }
        }
    }
    load(text, udir, &mut chunks, false, &mut Vec::new());
    let mut cur: Option<FnSpec> = None;
    let mut extras: Vec<(String, String)> = vec![];
    for (d, body) in chunks {
        let mut w = d.splitn(2, char::is_whitespace);
        let key = w.next().unwrap().to_string();
        let arg = w.next().unwrap_or("").trim().to_string();
        match key.as_str() {
            "src" | "verbatim" | "type" | "extra" | "fn" | "namespec" | "method" | "path" | "macros" | "endfn" | "dropmacro" | "rem" | "lit" | "default" => {
                if let Some(f) = cur.take() {
                    u.items.push(Item::Fn(f));
                }
                match key.as_str() {
                    "src" => { src = arg; u.items.push(Item::Verbatim(body)); }
                    // what is assumed about a function besides the contract discharged elsewhere
                    "extra" => extras.push((arg, body)),
                    "verbatim" => u.items.push(Item::Verbatim(body)),
                    "type" => {
                        let mut subst = vec![];
                        let mut head = String::new();
                        for l in body.lines() {
                            if let Some(s) = l.trim().strip_prefix("subst ") { subst.push(two(s)); } else { head.push_str(l); head.push('\n'); }
                        }
                        u.items.push(Item::Type { src: src.clone(), name: arg, head, subst });
                    }
                    "namespec" => { let w: Vec<&str> = arg.rsplitn(3, ' ').collect(); u.items.push(Item::NameSpec { spec: FnSpec { src: src.clone(), path: w[2].to_string(), ..Default::default() }, name: w[1].to_string(), ty: w[0].to_string() }); }
                    "lit" => { let (a, b) = two(&arg); u.items.push(Item::ConstLit { src: src.clone(), name: a, path: b }); }
                    "method" => u.methods.push(two(&arg)),
                    "path" => u.paths.push(two(&arg)),
                    "default" => u.defaults.push(two(&arg)),
                    "macros" => u.macros.push(if arg.is_empty() { src.clone() } else { arg }),
                    "dropmacro" => u.drop_macros.push(arg),
                    "fn" => {
                        cur = Some(FnSpec { src: src.clone(), path: arg, ..Default::default() });
                    }
                    _ => {}
                }
            }
            _ => {
                let f = cur.as_mut().unwrap_or_else(|| panic!("directive @{key} outside fn"));
                match key.as_str() {
                    "props" => f.props = arg.split_whitespace().map(|s| s.to_string()).collect(),
                    "ret" => f.ret = Some(arg),
                    "contract" => f.contract.push_str(&body),
                    "at" => f.anns.push((arg, body)),
                    "subst" => f.substs.push(two(&arg)),
                    "closure" => { let (n, h) = { let mut it = arg.splitn(2, char::is_whitespace); (it.next().unwrap().parse().unwrap(), it.next().unwrap_or("").to_string()) }; f.closures.push((n, format!("{h}\n{body}").trim().to_string())); }
                    "attr" => f.attrs.push(arg),
                    "rename" => f.rename = Some(arg),
                    "free" => f.free = true,
                    "inherent" => f.inherent = Some(arg),
                    "opt" => f.opts.push(arg),
                    "sig" => f.sig = Some(if arg.is_empty() { body } else { arg }),
                    "baseline" => f.baseline = Some(body),
                    k => panic!("unknown directive @{k}"),
                }
            }
        }
    }
    if let Some(f) = cur.take() { u.items.push(Item::Fn(f)); }
    for (p, b) in extras {
        let mut n = 0;
        for i in u.items.iter_mut() { if let Item::Fn(f) = i { if f.path == p { assert!(f.opts.iter().any(|o| o == "elsewhere"), "@extra {p}: not an imported contract"); f.contract.push_str(&b); n += 1; } } }
        assert!(n == 1, "@extra {p}: {n} functions");
    }
    let d: Vec<(String, String)> = u.defaults.drain(..).filter(|(a, _)| !u.methods.iter().any(|(b, _)| b == a)).collect();
    u.methods.extend(d);
    u
}
