//! vx: fills a Verus template with functions taken mechanically from /repo.
//!
//! usage: vx TEMPLATE OUT REPORT.json name=path ...      (name=path: extra sources, e.g. expanded:math)
//!
//! The template is Verus text.  Lines starting with `//@` are directives; see DESIGN.md.
mod rw;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use syn::visit_mut::VisitMut;
use syn::*;

pub fn die(m: String) -> ! { eprintln!("VX-ERROR: {m}"); std::process::exit(3) }

pub struct Src { pub path: String, pub file: File }

pub struct Ctx {
    pub repo: String,
    pub extra: HashMap<String, String>,
    pub cache: HashMap<String, std::rc::Rc<Src>>,
    pub known: BTreeSet<String>,
    pub under: BTreeSet<String>,
    pub report: Vec<String>,
    pub notes: Vec<String>,
    pub search: Vec<String>,
    pub assume: usize,
    pub opaque: BTreeSet<String>,
}

impl Ctx {
    pub fn src(&mut self, p: &str) -> std::rc::Rc<Src> {
        if let Some(s) = self.cache.get(p) { return s.clone() }
        let real = self.extra.get(p).cloned().unwrap_or_else(|| format!("{}/{}", self.repo, p));
        let text = std::fs::read_to_string(&real).unwrap_or_else(|e| die(format!("lost anchor: cannot read {real}: {e}")));
        let mut file = parse_file(&text).unwrap_or_else(|e| die(format!("cannot parse {real}: {e}")));
        strip_tests(&mut file.items);
        let shown = self.extra.get(p).and_then(|r| r.strip_prefix(&format!("{}/", self.repo)).map(|x| x.to_string())).unwrap_or(p.to_string());
        let s = std::rc::Rc::new(Src { path: shown, file });
        self.cache.insert(p.to_string(), s.clone());
        s
    }
}

/// the contracts take ==, <, clone and default of these types to be the derived ones: a hand-written impl anywhere in the type's crate is outside them
fn by_hand(real: &str, name: &str, traits: &[&str]) {
    let mut d = std::path::Path::new(real).parent().unwrap().to_path_buf();
    while !matches!(d.file_name().and_then(|x| x.to_str()), Some("src") | Some("calc")) { match d.parent() { Some(p) => d = p.to_path_buf(), None => return } }
    fn walk(d: &std::path::Path, v: &mut Vec<std::path::PathBuf>) { if let Ok(r) = std::fs::read_dir(d) { for e in r.flatten() { let p = e.path(); if p.is_dir() { walk(&p, v) } else if p.extension().map_or(false, |x| x == "rs") { v.push(p) } } } }
    let mut v = vec![]; walk(&d, &mut v); v.sort();
    for f in v {
        let Ok(t) = std::fs::read_to_string(&f) else { continue };
        let t: String = t.lines().map(|l| l.split("//").next().unwrap()).collect::<Vec<_>>().join(" ");
        for part in t.split("impl").skip(1) {
            let h: Vec<&str> = part.split('{').next().unwrap().split_whitespace().collect();
            if h.len() > 12 { continue }
            let h = h.join(" ");
            let Some((tr, ty)) = h.rsplit_once(" for ") else { continue };
            let (tr, ty) = (tr.split('<').next().unwrap_or("").trim().rsplit("::").next().unwrap_or("").trim(), ty.split(|c: char| c == '<' || c == ' ').next().unwrap_or(""));
            if ty == name && traits.contains(&tr) { die(format!("unsupported: {tr} of {name} is written by hand in {}", f.display())) }
        }
    }
}
fn derives(attrs: &[Attribute]) -> BTreeSet<String> {
    attrs.iter().filter(|a| a.path().is_ident("derive")).flat_map(|a| a.meta.to_token_stream().to_string().replace(|c: char| !c.is_alphanumeric(), " ").split_whitespace().map(String::from).collect::<Vec<_>>()).collect()
}
fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| { let t = a.to_token_stream().to_string().replace(' ', ""); t == "#[cfg(test)]" || t == "#[test]" })
}
pub fn cfg_out(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| { let t = a.to_token_stream().to_string().replace(' ', ""); t.starts_with("#[cfg(feature=") })
}
fn strip_tests(items: &mut Vec<Item>) {
    items.retain(|i| match i { Item::Mod(m) => !is_test(&m.attrs), Item::Fn(f) => !is_test(&f.attrs), _ => true });
    for i in items { if let Item::Mod(m) = i { if let Some((_, v)) = &mut m.content { strip_tests(v) } } }
}

pub fn all_items<'a>(items: &'a [Item], out: &mut Vec<&'a Item>) {
    for i in items {
        match i {
            Item::Mod(m) => { if let Some((_, v)) = &m.content { all_items(v, out) } }
            Item::Const(c) if c.ident == "_" => { if let Expr::Block(b) = &*c.expr { for s in &b.block.stmts { if let Stmt::Item(i) = s { out.push(i) } } } }
            _ => out.push(i),
        }
    }
}
pub fn type_ident(t: &Type) -> String {
    match t { Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(), Type::Reference(r) => type_ident(&r.elem), _ => String::new() }
}

pub struct Found { pub imp: Option<ItemImpl>, pub f: ImplItemFn, pub line: usize }

pub fn find_fn(src: &Src, name: &str) -> Option<Found> {
    let mut v = vec![]; all_items(&src.file.items, &mut v);
    if let Some((ty, m)) = name.split_once("::") {
        let mut m = m.to_string();
        // Type::Trait::method selects a trait impl
        let mut tr: Option<String> = None;
        if let Some((a, b)) = m.clone().split_once("::") { tr = Some(a.to_string()); m = b.to_string(); }
        for i in &v {
            if let Item::Trait(t) = i { if t.ident == ty { for it in &t.items { if let TraitItem::Fn(f) = it { if f.sig.ident == m { if let Some(b) = &f.default {
                return Some(Found { imp: None, line: f.sig.ident.span().start().line, f: ImplItemFn { attrs: vec![], vis: Visibility::Inherited, defaultness: None, sig: f.sig.clone(), block: b.clone() } });
            } } } } } }
            if let Item::Impl(im) = i {
                if type_ident(&im.self_ty) != ty { continue }
                match (&im.trait_, &tr) {
                    (None, None) => {}
                    (Some((_, p, _)), Some(t)) if p.segments.last().unwrap().ident == t => {}
                    _ => continue,
                }
                for it in &im.items { if let ImplItem::Fn(f) = it { if f.sig.ident == m && !is_test(&f.attrs) && !cfg_out(&f.attrs) {
                    let line = f.sig.ident.span().start().line;
                    let mut im2 = im.clone(); im2.items.clear(); im2.attrs.clear();
                    return Some(Found { imp: Some(im2), f: f.clone(), line });
                } } }
            }
        }
        None
    } else {
        for i in v { if let Item::Fn(f) = i { if f.sig.ident == name {
            let line = f.sig.ident.span().start().line;
            return Some(Found { imp: None, line, f: ImplItemFn { attrs: vec![], vis: f.vis.clone(), defaultness: None, sig: f.sig.clone(), block: (*f.block).clone() } });
        } } }
        None
    }
}

#[derive(Default, Debug, Clone)]
pub struct Spec {
    pub clauses: String,
    pub loops: BTreeMap<usize, String>,
    pub pre: String,
    pub tail: String,
    pub after: Vec<(String, usize, String)>,
    pub afterif: Vec<(usize, String)>,
    pub afterstmt: Vec<(String, usize, String)>,
    pub loopin: BTreeMap<usize, String>,
    pub loopend: BTreeMap<usize, String>,
    pub atleave: String,
}

fn fnv(s: &str) -> u64 { let mut h = 0xcbf29ce484222325u64; for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3) } h }

fn words(t: &str, from: &str, to: &str) -> String {
    let w = |c: char| c.is_alphanumeric() || c == '_';
    let (mut out, mut i) = (String::new(), 0);
    while let Some(p) = t[i..].find(from) {
        let (a, b) = (i + p, i + p + from.len());
        let free = !t[..a].chars().next_back().map_or(false, |c| w(c) || c == '.') && !t[b..].chars().next().map_or(false, w);
        out.push_str(&t[i..a]); out.push_str(if free { to } else { from }); i = b;
    }
    out.push_str(&t[i..]); out
}
/// a contract written for `lo..=hi` over code that says `lo..hi`, or the other way round: the same facts in the names the loop has
fn fit_ranges(spec: &Spec, body: &str) -> Option<Spec> {
    let all = format!("{spec:?}"); let mut s: Option<Spec> = None;
    for n in 0..6 {
        let (go, end) = (format!("__go{n}"), format!("__end{n}"));
        if !body.contains(&end) || !all.contains(&end) { continue }
        let id = |pat: String| body.find(&pat).and_then(|p| body[..p].trim_end().rsplit(|c: char| !(c.is_alphanumeric() || c == '_')).next().map(String::from)).filter(|x| !x.is_empty());
        let map: Vec<(String, String)> = match (body.contains(&go), all.contains(&go)) {
            (false, true) => { let Some(k) = id(format!(" < {end}")) else { continue }; vec![(end.clone(), format!("({end} - 1)")), (go.clone(), format!("({k} < {end})"))] }
            (true, false) => { let Some(k) = id(format!(" <= {end}")) else { continue }; vec![(k.clone(), format!("(if {go} || {k} > {end} {{ {k} as int }} else {{ {end} + 1 }})")), (end.clone(), format!("({end} + 1)"))] }
            _ => continue,
        };
        let x = s.get_or_insert_with(|| spec.clone());
        // from the last to the first, through names nothing else has: a replacement is not replaced again
        let f = |t: &mut String| { for (i, (a, _)) in map.iter().enumerate() { *t = words(t, a, &format!("__vxr{i}")); } for (i, (_, b)) in map.iter().enumerate() { *t = words(t, &format!("__vxr{i}"), b); } };
        // at the start of the body the counter is itself
        for t in x.loopin.values_mut() { for (a, b) in map.iter().filter(|(a, _)| a.starts_with("__")) { *t = words(t, a, &format!("__vxr")); *t = words(t, "__vxr", b); } }
        for t in x.loops.values_mut().chain(x.loopend.values_mut()).chain(x.after.iter_mut().map(|y| &mut y.2)).chain(x.afterif.iter_mut().map(|y| &mut y.1)).chain(x.afterstmt.iter_mut().map(|y| &mut y.2)) { f(t) }
    }
    s
}
/// print one function with its contract
pub fn emit_fn(cx: &mut Ctx, src: &Src, found: &Found, ret: &str, newname: Option<&str>, spec: &Spec, opts: &HashMap<String, String>, in_trait: bool) -> String {
    let mut f = found.f.clone();
    f.attrs.clear();
    f.vis = if in_trait { Visibility::Inherited } else { parse_quote!(pub) };
    let orig = found.f.to_token_stream().to_string();
    let mut r = rw::Rw::new(cx, src, found, opts.clone());
    if r.assume() && !opts.contains_key("svc") { f.block = parse_quote!({ unimplemented!() }); }
    r.run(&mut f);
    let asm = r.assume();
    drop(r);
    let probe = std::env::var("VX_PROBE").is_ok() && !asm && !(in_trait && found.imp.is_none());
    let empty2 = Spec { clauses: spec.clauses.clone(), pre: "proof { assert(false); }".into(), ..Default::default() };
    let spec = if probe { f.block = parse_quote!({ __vx_probe!() }); &empty2 } else { spec };
    let empty = Spec { clauses: spec.clauses.clone(), ..Default::default() };
    let spec = if asm { f.block = parse_quote!({ __vx_unimpl!() }); f.attrs.push(parse_quote!(#[verifier::external_body])); for a in f.sig.inputs.iter_mut() { if let FnArg::Typed(t) = a { if let Pat::Ident(p) = &mut *t.pat { p.mutability = None } } } &empty } else { spec };
    let fitted = if asm { None } else { fit_ranges(spec, &f.block.to_token_stream().to_string()) };
    let spec = fitted.as_ref().unwrap_or(spec);
    let Ghosts { ghosts } = rw::insert_ghosts(&mut f.block, spec);
    if std::env::var("VX_BRANCH").is_ok() && !asm { rw::mark_branches(&mut f.block); }
    let outty = match &f.sig.output { ReturnType::Default => None, ReturnType::Type(_, t) => Some(t.to_token_stream().to_string()) };
    if outty.is_some() { f.sig.output = parse_quote!(-> __VxRet); }
    f.block.stmts.insert(0, parse_quote!(__vx_sig!();));
    if let Some(n) = newname { f.sig.ident = Ident::new(n, f.sig.ident.span()); }
    f.sig.asyncness = None;
    let item: Item = if found.imp.is_some() || in_trait {
        // keep `self` parseable: print inside an impl
        parse_quote!(impl __VxT { #f })
    } else {
        let ImplItemFn { attrs, vis, sig, block, .. } = &f;
        parse_quote!(#(#attrs)* #vis #sig #block)
    };
    let mut text = prettyplease::unparse(&File { shebang: None, attrs: vec![], items: vec![item] });
    if found.imp.is_some() || in_trait {
        text = text.trim().strip_prefix("impl __VxT {").unwrap().strip_suffix('}').unwrap().to_string();
    }
    if let Some(t) = outty { text = text.replacen("__VxRet", &if ret.is_empty() { t } else { format!("({ret}: {t})") }, 1); }
    if let Some(n) = opts.get("rlimit") { text = format!("#[verifier::rlimit({n})] #[verifier::spinoff_prover]\n{}", text.trim_start()); }
    // clauses
    let p = text.find("__vx_sig!();").unwrap();
    let b = text[..p].rfind('{').unwrap();
    text = format!("{}\n{}\n{{{}", text[..b].trim_end(), spec.clauses.trim_end(), &text[p + "__vx_sig!();".len()..]);
    text = text.replace("__vx_unimpl!()", "unimplemented!()").replace("__vx_probe!()", "vpanic()").replace("__vx_leave!();", "");
    while let Some(p) = text.find("__vx_br!(") {
        let e = p + text[p..].find(';').unwrap();
        let k = text[p + 9..e].trim_end_matches(')').trim().trim_end_matches("usize").to_string();
        text = format!("{}proof {{ assert(!vbr({k})); }}{}", &text[..p], &text[e + 1..]);
    }
    // loops
    let mut used = BTreeSet::new();
    loop {
        let Some(p) = text.find("__vx_loop!(") else { break };
        let e = p + text[p..].find(')').unwrap();
        let k: usize = text[p + "__vx_loop!(".len()..e].trim().parse().unwrap();
        used.insert(k);
        let b = text[..p].rfind('{').unwrap();
        let inv = spec.loops.get(&k).cloned().unwrap_or_default();
        let end = e + text[e..].find(';').unwrap() + 1;
        text = format!("{}\n{}\n{{{}", text[..b].trim_end(), inv.trim_end(), &text[end..]);
    }
    for (i, g) in ghosts.iter().enumerate() {
        let m = format!("__vx_ghost!({i});");
        text = text.replace(&m, &format!("\n{}\n", g.trim_end()));
    }
    let item = match &found.imp { Some(im) => format!("{}::{}", type_ident(&im.self_ty), found.f.sig.ident), None => found.f.sig.ident.to_string() };
    cx.report.push(format!("{{\"path\":\"{}\",\"item\":\"{}\",\"line\":{},\"hash\":\"{:016x}\",\"assumed\":{},\"probed\":{}}}", src.path, item, found.line, fnv(&orig), asm, probe));
    for m in rw::LOST.with(|l| std::mem::take(&mut *l.borrow_mut())) { cx.notes.push(format!("lost hint|{}|{}|{}: {m}", src.path, item, found.line)) }
    format!("//#VX {}|{}|{}\n{text}\n//#VXEND\n", src.path, item, found.line)
}

pub struct Ghosts { pub ghosts: Vec<String> }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let tpl = std::fs::read_to_string(&a[1]).unwrap();
    let mut cx = Ctx { repo: std::env::var("VX_REPO").unwrap_or("/repo".into()), extra: HashMap::new(), cache: HashMap::new(), known: BTreeSet::new(), under: BTreeSet::new(), report: vec![], notes: vec![], search: vec![], assume: 0, opaque: BTreeSet::new() };
    for x in &a[4..] { let (k, v) = x.split_once('=').unwrap(); cx.extra.insert(k.into(), v.into()); }
    // includes first
    let mut lines: Vec<String> = vec![];
    let dir = std::path::Path::new(&a[1]).parent().unwrap().to_path_buf();
    fn inc(dir: &std::path::Path, text: &str, lines: &mut Vec<String>) {
        for l in text.lines() {
            if let Some(f) = l.trim().strip_prefix("//@include ") {
                let mut w = f.split_whitespace(); let f = w.next().unwrap(); let asm = w.next() == Some("assume");
                let t = std::fs::read_to_string(dir.join(f)).unwrap_or_else(|e| die(format!("include {f}: {e}")));
                if asm { lines.push("//@assume on".into()) }
                inc(dir, &t, lines);
                if asm { lines.push("//@assume off".into()) }
            } else { lines.push(l.to_string()) }
        }
    }
    inc(&dir, &tpl, &mut lines);
    // //@if NAME .. //@else .. //@fi : parts of a contract that differ between two copies of a function
    let def = std::env::var("VX_DEF").unwrap_or_default();
    let mut keep: Vec<Option<bool>> = vec![]; let mut sel = vec![]; let mut subst: Vec<(String, String)> = vec![];
    for l in lines {
        let t = l.trim();
        if let Some(n) = t.strip_prefix("//@if ") { keep.push(Some(def.split(',').any(|x| x == n.trim()))); continue }
        if t == "//@else" { let k = keep.last_mut().unwrap(); *k = k.map(|x| !x); continue }
        if t == "//@fi" { keep.pop(); continue }
        if !keep.iter().all(|k| *k == Some(true)) { continue }
        // //@subst A => B : in the template text that follows (never in extracted code)
        if let Some(x) = t.strip_prefix("//@subst ") { let (a, b) = x.split_once(" => ").unwrap_or_else(|| die(format!("bad subst {x}"))); subst.push((a.trim().to_string(), b.trim().to_string())); continue }
        let mut l = l; for (a, b) in &subst { l = l.replace(a.as_str(), b.as_str()); }
        sel.push(l)
    }
    let lines = sel;
    // names the template provides: anything spelled `fn name` in plain text, or taken by a directive
    for l in &lines {
        let t = l.trim();
        if let Some(r) = t.strip_prefix("//@fn ") {
            let mut w = r.split_whitespace(); w.next(); let n = w.next().unwrap_or("");
            cx.known.insert(n.to_string()); cx.known.insert(n.rsplit("::").next().unwrap().to_string()); cx.under.insert(n.rsplit("::").next().unwrap().to_string());
        } else if let Some(r) = t.strip_prefix("//@m ") { cx.known.insert(r.split_whitespace().next().unwrap().to_string()); }
        else if !t.starts_with("//") {
            let mut s = t;
            while let Some(p) = s.find("fn ") {
                let ok = p == 0 || !s.as_bytes()[p - 1].is_ascii_alphanumeric();
                s = &s[p + 3..];
                if ok { let n: String = s.trim_start().chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect(); cx.known.insert(n); }
            }
        }
    }
    let mut out = String::new();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i].clone(); let t = l.trim().to_string(); i += 1;
        let Some(d) = t.strip_prefix("//@") else {
            // an included lemma that another unit proves
            if let Some(r) = t.strip_prefix("pub open spec fn ") { let n: String = r.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect(); if cx.opaque.contains(&n) { let _ = writeln!(out, "#[verifier::opaque]"); } }
            if cx.assume > 0 && t.starts_with("pub proof fn ") { let _ = writeln!(out, "#[verifier::external_body] {l}"); } else { let _ = writeln!(out, "{l}"); }
            continue };
        let mut w = d.split_whitespace();
        let cmd = w.next().unwrap_or("");
        let rest: Vec<&str> = w.collect();
        match cmd {
            "fn" | "traitimpl" => {
                // gather the block
                let mut specs: Vec<(String, Spec)> = vec![(String::new(), Spec::default())];
                enum S { AS, C, L(usize), P, T, A, I, LI(usize), LE(usize), V, X }
                let mut st = S::C;
                loop {
                    if i >= lines.len() { die(format!("unterminated {d}")) }
                    let bl = lines[i].clone(); i += 1; let bt = bl.trim();
                    let cur = &mut specs.last_mut().unwrap().1;
                    if bt == "//@end" { break }
                    else if bt == "//@assumed" { st = S::X }
                    else if let Some(k) = bt.strip_prefix("//@loop ") { let k: usize = k.trim().parse().unwrap(); cur.loops.insert(k, String::new()); st = S::L(k) }
                    else if let Some(k) = bt.strip_prefix("//@loopin ") { let k: usize = k.trim().parse().unwrap(); cur.loopin.insert(k, String::new()); st = S::LI(k) }
                    else if let Some(k) = bt.strip_prefix("//@loopend ") { let k: usize = k.trim().parse().unwrap(); cur.loopend.insert(k, String::new()); st = S::LE(k) }
                    else if bt == "//@pre" { st = S::P }
                    else if bt == "//@tail" { st = S::T }
                    else if bt == "//@atleave" { st = S::V }
                    else if let Some(k) = bt.strip_prefix("//@after ") { let mut w = k.split_whitespace(); let n = w.next().unwrap().to_string(); let ix = w.next().map(|x| x.parse().unwrap()).unwrap_or(0); cur.after.push((n, ix, String::new())); st = S::A }
                    else if let Some(k) = bt.strip_prefix("//@afterstmt ") { let mut w = k.split_whitespace(); let n = w.next().unwrap().to_string(); let ix = w.next().map(|x| x.parse().unwrap()).unwrap_or(0); cur.afterstmt.push((n, ix, String::new())); st = S::AS }
                    else if let Some(k) = bt.strip_prefix("//@afterif ") { cur.afterif.push((k.trim().parse().unwrap(), String::new())); st = S::I }
                    else if let Some(k) = bt.strip_prefix("//@m ") { specs.push((k.trim().to_string(), Spec::default())); st = S::C }
                    else { if let S::X = st { if cx.assume > 0 { let _ = writeln!(cur.clauses, "{bl}"); } continue } let s = match st { S::X => unreachable!(), S::C => &mut cur.clauses, S::L(k) => cur.loops.get_mut(&k).unwrap(), S::P => &mut cur.pre, S::LI(k) => cur.loopin.get_mut(&k).unwrap(), S::LE(k) => cur.loopend.get_mut(&k).unwrap(), S::T => &mut cur.tail, S::V => &mut cur.atleave, S::A => &mut cur.after.last_mut().unwrap().2, S::I => &mut cur.afterif.last_mut().unwrap().1, S::AS => &mut cur.afterstmt.last_mut().unwrap().2 }; let _ = writeln!(s, "{bl}"); }
                }
                if cmd == "fn" {
                    let src = cx.src(rest[0]);
                    let Some(found) = find_fn(&src, rest[1]) else { die(format!("lost anchor: no function {} in {}", rest[1], rest[0])) };
                    let mut ret = ""; let mut newname = None; let mut opts = HashMap::new();
                    let mut k = 2;
                    while k < rest.len() {
                        match rest[k] { "->" => { ret = rest[k + 1]; k += 2 } "as" => { newname = Some(rest[k + 1]); k += 2 }
                            o => { let (a, b) = o.split_once('=').unwrap_or((o, "")); opts.insert(a.to_string(), b.to_string()); k += 1 } }
                    }
                    let text = emit_fn(&mut cx, &src, &found, ret, newname, &specs[0].1, &opts, opts.contains_key("bare"));
                    match (&found.imp, opts.contains_key("free")) {
                        (Some(im), false) if opts.contains_key("svc") && type_ident(&im.self_ty) == "InvariantService" => { let _ = writeln!(out, "impl InvariantService {{\n{}\n}}", text); }
                        (Some(im), false) => {
                            let (g, _, wc) = im.generics.split_for_impl(); let ty = &im.self_ty;
                            let wc = if opts.contains_key("nowhere") { String::new() } else { wc.to_token_stream().to_string() };
                            let _ = writeln!(out, "impl{} {} {} {{\n{}\n}}", g.to_token_stream(), ty.to_token_stream(), wc, text);
                        }
                        _ => { let _ = writeln!(out, "{text}"); }
                    }
                } else {
                    // //@traitimpl SRC TRAIT TYPE [skip=a,b]
                    let src = cx.src(rest[0]);
                    let mut v = vec![]; all_items(&src.file.items, &mut v);
                    let mut opts: HashMap<String, String> = HashMap::new();
                    for o in &rest[3..] { let (a, b) = o.split_once('=').unwrap_or((o, "")); opts.insert(a.into(), b.into()); }
                    let want = rest[1].replace('~', " ");
                    let im = v.iter().find_map(|i| if let Item::Impl(im) = i { match &im.trait_ {
                        Some((_, p, _)) if type_ident(&im.self_ty) == rest[2] && { let s = p.to_token_stream().to_string().replace(' ', ""); s == want || p.segments.last().unwrap().ident == want } => Some((*im).clone()), _ => None } } else { None });
                    let Some(im) = im else { die(format!("lost anchor: no impl {} for {} in {}", rest[1], rest[2], rest[0])) };
                    let mut head = im.clone(); head.items.clear(); head.attrs.clear();
                    let h = rw::print_head(&mut head, &opts);
                    let _ = writeln!(out, "{h} {{");
                    let skip: Vec<&str> = opts.get("skip").map(|s| s.split(',').collect()).unwrap_or_default();
                    for it in &im.items {
                        match it {
                            ImplItem::Type(t) => { if skip.contains(&t.ident.to_string().as_str()) { continue } let _ = writeln!(out, "    {}", t.to_token_stream()); }
                            ImplItem::Fn(f) => {
                                let n = f.sig.ident.to_string();
                                if skip.contains(&n.as_str()) { continue }
                                let sp = specs.iter().find(|(k, _)| *k == n).map(|x| x.1.clone()).unwrap_or_default();
                                let fd = Found { imp: Some(head.clone()), f: f.clone(), line: f.sig.ident.span().start().line };
                                let text = emit_fn(&mut cx, &src, &fd, "r", None, &sp, &opts, true);
                                let _ = writeln!(out, "{text}");
                            }
                            _ => {}
                        }
                    }
                    let _ = writeln!(out, "{}\n}}", specs[0].1.clauses);
                }
            }
            "derived" => {
                let src = cx.src(rest[0]);
                let real = cx.extra.get(rest[0]).cloned().unwrap_or_else(|| format!("{}/{}", cx.repo, rest[0]));
                let mut v = vec![]; all_items(&src.file.items, &mut v);
                let Some(at) = v.iter().find_map(|i| match i { Item::Struct(s) if s.ident == rest[1] => Some(s.attrs.clone()), Item::Enum(s) if s.ident == rest[1] => Some(s.attrs.clone()), _ => None }) else { die(format!("lost anchor: no type {} in {}", rest[1], rest[0])) };
                let have = derives(&at);
                for t in &rest[2..] { if !have.contains(*t) { die(format!("unsupported: {t} of {} is not derived", rest[1])) } }
                by_hand(&real, rest[1], &rest[2..]);
            }
            "struct" | "enum" | "const" => {
                let src = cx.src(rest[0]);
                if cmd != "const" { let real = cx.extra.get(rest[0]).cloned().unwrap_or_else(|| format!("{}/{}", cx.repo, rest[0])); by_hand(&real, rest[1], &["PartialEq", "PartialOrd", "Ord", "Clone", "Hash"]); }
                let mut v = vec![]; all_items(&src.file.items, &mut v);
                let mut done = false;
                for it in v {
                    match it {
                        Item::Struct(s) if s.ident == rest[1] && cmd == "struct" => {
                            let mut s = s.clone(); s.attrs.clear(); s.vis = parse_quote!(pub);
                            for f in s.fields.iter_mut() { f.vis = parse_quote!(pub); f.attrs.clear(); rw::TyRw.visit_type_mut(&mut f.ty); }
                            if rest.get(2) == Some(&"copy") { s.attrs.push(parse_quote!(#[derive(Clone, Copy)])); }
                            let _ = writeln!(out, "{}", prettyplease::unparse(&File { shebang: None, attrs: vec![], items: vec![Item::Struct(s)] })); done = true; }
                        Item::Enum(s) if s.ident == rest[1] && cmd == "enum" => {
                            let mut s = s.clone(); s.attrs.clear(); s.vis = parse_quote!(pub); rw::drop_ctx(&mut s);
                            if rest.get(2) == Some(&"copy") { s.attrs.push(parse_quote!(#[derive(Clone, Copy)])); } for va in s.variants.iter_mut() { va.attrs.clear(); for f in va.fields.iter_mut() { f.attrs.clear(); rw::TyRw.visit_type_mut(&mut f.ty); } }
                            let _ = writeln!(out, "{}", prettyplease::unparse(&File { shebang: None, attrs: vec![], items: vec![Item::Enum(s)] })); done = true; }
                        Item::Const(c) if c.ident == rest[1] && cmd == "const" => {
                            let mut c = c.clone(); c.attrs.clear(); c.vis = parse_quote!(pub);
                            if rest.get(2) == Some(&"spec") { let t = &c.ty; let e = &c.expr; let n = &c.ident; let _ = writeln!(out, "pub spec const {}: {} = {};", n, t.to_token_stream(), e.to_token_stream()); }
                            else if rest.get(2) == Some(&"ensures") { let t = &c.ty; let e = &c.expr; let n = &c.ident; let _ = writeln!(out, "pub exec const {}: {} ensures {} {{ {} }}", n, t.to_token_stream(), rest[3..].join(" "), e.to_token_stream()); }
                            else { let _ = writeln!(out, "{}", prettyplease::unparse(&File { shebang: None, attrs: vec![], items: vec![Item::Const(c)] })); }
                            done = true; }
                        _ => {}
                    }
                    if done { break }
                }
                if !done { die(format!("lost anchor: no {cmd} {} in {}", rest[1], rest[0])) }
                cx.report.push(format!("{{\"path\":\"{}\",\"item\":\"{} {}\",\"line\":0,\"hash\":\"\",\"assumed\":false}}", rest[0], cmd, rest[1]));
            }
            "opaque" => { for r in rest { cx.opaque.insert(r.to_string()); } }
            "search" => { for r in rest { cx.search.push(r.to_string()); } }
            "assume" => { if rest[0] == "on" { cx.assume += 1 } else { cx.assume -= 1 } }
            "known" => { for r in rest { cx.known.insert(r.to_string()); } }
            "" => { let _ = writeln!(out, "{l}"); }
            _ => die(format!("unknown directive {d}")),
        }
    }
    std::fs::write(&a[2], out).unwrap();
    let notes: Vec<String> = cx.notes.iter().map(|n| format!("{:?}", n)).collect();
    std::fs::write(&a[3], format!("{{\"items\":[{}],\"notes\":[{}]}}\n", cx.report.join(","), notes.join(","))).unwrap();
}
