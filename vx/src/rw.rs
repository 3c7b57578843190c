//! Mechanical rewriting of a repository function into the subset the verifier accepts.
//! Every rewrite is listed in DESIGN.md ("what the extraction drops").
use crate::{find_fn, Ctx, Found, Ghosts, Spec, Src};
use quote::ToTokens;
use std::collections::HashMap;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

const PRIMS: &[&str] = &["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "bool", "str", "char"];

pub struct TyRw;
impl VisitMut for TyRw {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let n = p.segments.len();
        if n > 1 {
            let mut cut = 0;
            for (i, s) in p.segments.iter().enumerate() {
                let t = s.ident.to_string();
                let low = t.chars().next().unwrap().is_lowercase() && !PRIMS.contains(&t.as_str());
                if low && i + 1 < n { cut = i + 1 } else { break }
            }
            if cut > 0 {
                p.leading_colon = None;
                p.segments = p.segments.iter().skip(cut).cloned().collect();
            }
        }
        if let Some(s) = p.segments.first_mut() {
            let r = match s.ident.to_string().as_str() {
                "String" => "VString", "TrackableError" => "VErr", "TryInto" => "VTryInto", "TryFrom" => "VTryFrom",
                "HashMap" => "HMap", "HashSet" => "HSet", _ => "",
            };
            if !r.is_empty() { s.ident = Ident::new(r, s.ident.span()) }
        }
    }
}

pub fn add_bounds(g: &mut Generics, opts: &HashMap<String, String>) {
    if let Some(v) = opts.get("gen") { for x in v.split(',') { if let Some((n, b)) = x.split_once(':') {
        for p in g.params.iter_mut() { if let GenericParam::Type(t) = p { if t.ident == n || (n == "*" && t.bounds.is_empty()) { let b: TypeParamBound = parse_str(b).unwrap(); t.bounds.push(b); } } }
    } } }
}
pub fn print_head(im: &mut ItemImpl, opts: &HashMap<String, String>) -> String {
    add_bounds(&mut im.generics, opts);
    TyRw.visit_item_impl_mut(im);
    // drop Debug bounds: they carry no behaviour here
    struct D;
    impl VisitMut for D {
        fn visit_type_param_bound_mut(&mut self, _b: &mut TypeParamBound) {}
        fn visit_generics_mut(&mut self, g: &mut Generics) {
            fn keep(b: &TypeParamBound) -> bool { !b.to_token_stream().to_string().ends_with("Debug") }
            for p in g.params.iter_mut() { if let GenericParam::Type(t) = p { t.bounds = t.bounds.iter().filter(|b| keep(b)).cloned().collect(); } }
            if let Some(w) = &mut g.where_clause { for p in w.predicates.iter_mut() { if let WherePredicate::Type(t) = p { t.bounds = t.bounds.iter().filter(|b| keep(b)).cloned().collect(); } } }
        }
    }
    D.visit_item_impl_mut(im);
    let (g, _, wc) = im.generics.split_for_impl();
    let tr = im.trait_.as_ref().map(|(_, p, _)| format!("{} for ", p.to_token_stream())).unwrap_or_default();
    format!("impl{} {}{} {}", g.to_token_stream(), tr, im.self_ty.to_token_stream(), wc.to_token_stream())
}

/// the context parameter of the service is dropped
struct G;
impl VisitMut for G { fn visit_path_segment_mut(&mut self, p: &mut PathSegment) {
    if let PathArguments::AngleBracketed(a) = &mut p.arguments { a.args = a.args.iter().filter(|x| x.to_token_stream().to_string() != "TExecContext").cloned().collect(); if a.args.is_empty() { p.arguments = PathArguments::None } }
    visit_mut::visit_path_segment_mut(self, p) } }
pub fn drop_ctx(e: &mut ItemEnum) {
    e.generics.params = e.generics.params.iter().filter(|p| !matches!(p, GenericParam::Type(t) if t.ident == "TExecContext")).cloned().collect();
    G.visit_item_enum_mut(e);
}
pub struct Rw<'a> {
    cx: &'a mut Ctx,
    src: &'a Src,
    imp: Option<ItemImpl>,
    opts: HashMap<String, String>,
    depth: usize,
    n: usize,
    svc: bool,
    ranges: Vec<String>,
}

fn mac_name(m: &Macro) -> String { m.path.segments.last().unwrap().ident.to_string() }
fn has_panic(e: &Expr) -> bool {
    let s = e.to_token_stream().to_string();
    s.contains("panic") || s.contains("unreachable") || s.contains("vpanic")
}
fn lit_str(e: &Expr) -> bool {
    match e { Expr::Lit(l) => matches!(l.lit, Lit::Str(_)), Expr::Reference(r) => lit_str(&r.expr), Expr::MethodCall(m) => (m.method == "to_string" || m.method == "into" || m.method == "to_owned") && lit_str(&m.receiver), _ => false }
}
fn strip_ref(e: &Expr) -> &Expr { match e { Expr::Reference(r) => &r.expr, Expr::Paren(p) => strip_ref(&p.expr), _ => e } }

struct HasRet { q: bool, r: bool, aw: bool }
impl<'ast> Visit<'ast> for HasRet {
    fn visit_expr_try(&mut self, e: &'ast ExprTry) { self.q = true; syn::visit::visit_expr_try(self, e) }
    fn visit_expr_return(&mut self, e: &'ast ExprReturn) { self.r = true; syn::visit::visit_expr_return(self, e) }
    fn visit_expr_closure(&mut self, _e: &'ast ExprClosure) {}
    fn visit_expr_await(&mut self, e: &'ast ExprAwait) { self.aw = true; syn::visit::visit_expr_await(self, e) }
    fn visit_item(&mut self, _i: &'ast Item) {}
}

impl<'a> Rw<'a> {
    pub fn new(cx: &'a mut Ctx, src: &'a Src, found: &Found, opts: HashMap<String, String>) -> Self {
        let svc = opts.contains_key("svc");
        Rw { cx, src, imp: found.imp.clone(), opts, depth: 0, n: 0, svc, ranges: vec![] }
    }

    pub fn assume(&self) -> bool { self.cx.assume > 0 }
    /// certainly an Option, by its shape: what looking into a map or a vector gives, and what keeps it one. The records of `Invariant` that are
    /// registries of their own (pools, ticks, positions, ...) answer with a Result, so a field counts only where it is a plain map
    fn optional(&self, e: &Expr) -> bool {
        let Expr::MethodCall(m) = e else { return false };
        let name = m.method.to_string();
        match name.as_str() {
            "copied" | "cloned" if m.args.is_empty() => self.optional(&m.receiver),
            "map" | "and_then" | "filter" if m.args.len() == 1 && matches!(m.args[0], Expr::Closure(_)) => self.optional(&m.receiver),
            "get" | "get_mut" | "remove" | "insert" => match &*m.receiver {
                Expr::Field(f) => {
                    let field = f.member.to_token_stream().to_string();
                    let mine = self.imp.as_ref().map_or(false, |i| i.self_ty.to_token_stream().to_string().starts_with("Invariant"));
                    ["balances", "awaiting_transfers", "bitmap"].contains(&field.as_str()) || (!mine && self.imp.is_some() && f.base.to_token_stream().to_string() == "self")
                }
                Expr::Path(p) => p.path.get_ident().map_or(false, |i| i != "self" && !["pools", "ticks", "positions", "tickmap", "pool_keys", "fee_tiers"].contains(&i.to_string().as_str())) && m.args.len() == 1,
                _ => false,
            },
            _ => false,
        }
    }
    pub fn run(&mut self, f: &mut ImplItemFn) {
        f.sig.constness = None;
        for a in f.sig.inputs.iter_mut() { match a { FnArg::Typed(t) => t.attrs.clear(), FnArg::Receiver(r) => r.attrs.clear() } }
        TyRw.visit_signature_mut(&mut f.sig);
        add_bounds(&mut f.sig.generics, &self.opts.clone());
        if self.svc { self.service(f); }
        self.visit_block_mut(&mut f.block);
        TyRw.visit_block_mut(&mut f.block);
        // drop Debug bounds
        for p in f.sig.generics.params.iter_mut() { if let GenericParam::Type(t) = p { t.bounds = t.bounds.iter().filter(|b| !b.to_token_stream().to_string().ends_with("Debug")).cloned().collect(); } }
    }

    /// entry points: `panicking!(f)` becomes a function returning Result (an error is a panic: the message is reverted);
    /// the global storage becomes a parameter
    fn service(&mut self, f: &mut ImplItemFn) {
        let mut unwrap: Option<Block> = None;
        let lastm = match f.block.stmts.last() { Some(Stmt::Expr(Expr::Macro(m), None)) => Some(m.mac.clone()), Some(Stmt::Macro(m)) => Some(m.mac.clone()), _ => None };
        if let Some(m) = lastm { let n = mac_name(&m); if n == "panicking" || n == "panicking_async" {
            self.check_panicking(&n);
            let e: Expr = m.parse_body().unwrap_or_else(|_| crate::die("unsupported: panicking! of something that is no closure".into()));
            if let Expr::Closure(c) = e { if c.inputs.is_empty() { unwrap = Some(match *c.body { Expr::Block(b) => b.block, Expr::Async(b) => b.block, e => parse_quote!({ #e }) }); } }
            if unwrap.is_none() { crate::die("unsupported: panicking! of something that is no closure".into()) }
        } }
        if let Some(b) = unwrap {
            f.block.stmts.pop(); f.block.stmts.extend(b.stmts);
            let t: Type = match &f.sig.output { ReturnType::Default => parse_quote!(()), ReturnType::Type(_, t) => (**t).clone() };
            f.sig.output = parse_quote!(-> Result<#t, InvariantError>);
        }
        let asy = f.sig.asyncness.take().is_some();
        self.service_block(&mut f.block);
        G.visit_signature_mut(&mut f.sig); G.visit_block_mut(&mut f.block);
        let has = f.sig.inputs.iter().any(|a| matches!(a, FnArg::Typed(t) if t.pat.to_token_stream().to_string() == "invariant"));
        if !has && !self.opts.contains_key("nostate") { f.sig.inputs.push(parse_quote!(invariant: &mut Invariant)); }
        if asy { f.sig.inputs.push(parse_quote!(vlog: &mut VLog)); }
        for a in f.sig.inputs.iter_mut() { if let FnArg::Typed(t) = a { if let Type::ImplTrait(it) = &*t.ty { let s = it.to_token_stream().to_string().replace(' ', "");
            if let Some(x) = s.strip_prefix("implIterator<Item=") { let x: Type = parse_str(x.trim_end_matches('>')).unwrap(); if let Pat::Ident(p) = &*t.pat { self.ranges.push(p.ident.to_string()); } *t.ty = parse_quote!(VRangeIncl<#x>); } } } }
    }
    fn check_panicking(&self, n: &str) {
        let mut v = vec![]; crate::all_items(&self.src.file.items, &mut v);
        let want = if n == "panicking" { "($expr:expr)=>{{letresult:Result<_,InvariantError>=$expr();matchresult{Ok(value)=>value,Err(e)=>panic(e),}}};" } else { "($expr:expr)=>{{letresult:Result<_,InvariantError>=$expr().await;matchresult{Ok(value)=>value,Err(e)=>panic(e),}}};" };
        let ok = v.iter().any(|i| matches!(i, Item::Macro(m) if m.ident.as_ref().map(|x| x == n).unwrap_or(false) && m.mac.tokens.to_string().replace([' ', '\n'], "") == want));
        if !ok { crate::die(format!("lost anchor: macro {n} is not the one described")) }
    }
    /// the global storage is the parameter `invariant`
    fn service_block(&mut self, b: &mut Block) {
        fn stg(e: &Expr) -> bool { let s = e.to_token_stream().to_string().replace(' ', ""); s == "InvariantStorage::as_mut()" || s == "InvariantStorage::as_ref()" }
        struct S { ren: Vec<String> }
        impl VisitMut for S {
            fn visit_block_mut(&mut self, b: &mut Block) {
                let mut i = 0;
                while i < b.stmts.len() {
                    let name = match &b.stmts[i] { Stmt::Local(l) => match (&l.pat, &l.init) { (Pat::Ident(p), Some(init)) if stg(&init.expr) => Some(p.ident.to_string()), _ => None }, _ => None };
                    if let Some(n) = name { if n != "invariant" { self.ren.push(n); } b.stmts.remove(i); continue }
                    i += 1;
                }
                visit_mut::visit_block_mut(self, b)
            }
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if stg(e) { *e = parse_quote!(invariant); return }
                if let Expr::Path(p) = e { if let Some(id) = p.path.get_ident() { if self.ren.contains(&id.to_string()) { *e = parse_quote!(invariant); return } } }
                // &invariant: the parameter is a reference already
                if let Expr::Reference(r) = e { if r.mutability.is_none() && (stg(&r.expr) || r.expr.to_token_stream().to_string() == "invariant") { *e = parse_quote!((&*invariant)); return } }
                visit_mut::visit_expr_mut(self, e)
            }
        }
        S { ren: vec![] }.visit_block_mut(b);
    }
    /// further parameters of a called entry point: (storage, log)
    fn callee_extra(&mut self, ty: Option<&str>, name: &str) -> (bool, bool, bool) {
        let mut names = vec![]; if let Some(t) = ty { names.push(format!("{t}::{name}")) } else { names.push(name.to_string()) }
        for n in names { let s = self.src; if let Some(f) = find_fn(s, &n) { return (f.f.block.to_token_stream().to_string().contains("InvariantStorage") && !f.f.sig.inputs.iter().any(|a| matches!(a, FnArg::Typed(t) if t.pat.to_token_stream().to_string() == "invariant")), f.f.sig.asyncness.is_some(), f.f.block.to_token_stream().to_string().starts_with("{ panicking")) } }
        (false, false, false)
    }
    /// rewrites that only make sense for the entry points; true: done with this expression
    fn svc_expr(&mut self, e: &mut Expr) -> bool {
        match e {
            Expr::Await(a) => {
                let base = (*a.base).clone();
                let asy = match &base { Expr::MethodCall(m) if m.receiver.to_token_stream().to_string() == "self" => self.callee_extra(Some("InvariantService"), &m.method.to_string()).1, _ => false };
                let mut b = base; self.visit_expr_mut(&mut b);
                *e = if asy { b } else { parse_quote!(vawait(#b, invariant, vlog)) };
                true
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let rc = m.receiver.to_token_stream().to_string();
                if lit_str(&m.receiver) && name == "encode" { let r = &m.receiver; *e = parse_quote!(vstr_encode(#r)); return true }
                if name == "ok" && m.args.is_empty() { if let Expr::MethodCall(mm) = &*m.receiver { if mm.method == "map" && mm.args.len() == 1 { if let Some((Some(p), b)) = closure1(&mm.args[0]) { if !has_return(&b) { let (mut r, mut b) = ((*mm.receiver).clone(), b); self.visit_expr_mut(&mut r); self.visit_expr_mut(&mut b);
                    *e = parse_quote!(match #r { Ok(#p) => Some(#b), Err(_) => None }); return true } } } } }
                if name == "unwrap_or_default" && m.args.is_empty() { let mut r = (*m.receiver).clone(); self.visit_expr_mut(&mut r); *e = parse_quote!(#r.vunwrap_or_default()); return true }
                if name == "count_ones" && m.args.is_empty() { let mut r = (*m.receiver).clone(); self.visit_expr_mut(&mut r); *e = parse_quote!(vcount_ones(#r)); return true }
                if name == "concat" { if let Expr::Array(a) = &*m.receiver { let mut it = a.elems.iter().cloned().collect::<Vec<_>>().into_iter();
                    let mut acc = match it.next() { Some(x) => x, None => return false }; self.visit_expr_mut(&mut acc);
                    for mut x in it { self.visit_expr_mut(&mut x); acc = parse_quote!(vcat(#acc, #x)); } *e = acc; return true } }
                if name == "handle_reply" && m.args.len() == 1 { if let Some((None, b)) = closure1(&m.args[0]) { let mut b = b;
                    if let Expr::Block(bb) = &b { if bb.block.stmts.len() == 1 { if let Stmt::Expr(x, _) = &bb.block.stmts[0] { b = x.clone(); } } }
                    if let Expr::Call(c) = &b { if c.func.to_token_stream().to_string() == "reply_handler" && c.args.len() == 2 { let (mut r, mut x, mut y) = ((*m.receiver).clone(), c.args[0].clone(), c.args[1].clone()); self.visit_expr_mut(&mut r); self.visit_expr_mut(&mut x); self.visit_expr_mut(&mut y);
                        *e = parse_quote!(#r.vhandle_reply(#x, #y)); return true } }
                } }
                if name == "map" && m.args.len() == 1 && self.opts.contains_key("map_result") { if let Some((Some(p), b)) = closure1(&m.args[0]) { let (mut r, mut b) = ((*m.receiver).clone(), b); self.visit_expr_mut(&mut r); self.visit_expr_mut(&mut b);
                    *e = parse_quote!(match #r { Ok(#p) => Ok(#b), Err(__e) => Err(__e) }); return true } }
                // iterator chains over a vector or a map
                if name == "collect" { if let Some(x) = self.chain(&m.receiver) { *e = x; return true } }
                if name == "into" && m.args.is_empty() && !matches!(&*m.receiver, Expr::Tuple(_)) { let mut r = (*m.receiver).clone(); if let Expr::Lit(l) = &r { if let Lit::Int(i) = &l.lit { if i.suffix().is_empty() { r = parse_str(&format!("{}i32", i)).unwrap(); } } } else { self.visit_expr_mut(&mut r); } *e = parse_quote!(#r.sinto()); return true }
                for a in m.args.iter_mut() { if let Expr::Range(r) = a { if let (Some(lo), Some(hi), RangeLimits::Closed(_)) = (&r.start, &r.end, &r.limits) { let (lo, hi) = ((**lo).clone(), (**hi).clone()); *a = parse_quote!(VRangeIncl { lo: #lo, hi: #hi }); } } }
                if rc == "self" || rc == "contract" {
                    let (st, lg, pk) = self.callee_extra(Some("InvariantService"), &name);
                    let inl = if rc == "self" { self.try_inline(&e.clone(), false) } else { None };
                    if let Some(b) = inl { *e = b; return true }
                    if let Expr::MethodCall(m) = e { for a in m.args.iter_mut() { self.visit_expr_mut(a) } if st { m.args.push(parse_quote!(invariant)) } if lg { m.args.push(parse_quote!(vlog)) } }
                    if pk { let x = e.clone(); *e = parse_quote!(#x.vunwrap()); }
                    return true
                }
                false
            }
            Expr::Call(c) => {
                let f = c.func.to_token_stream().to_string().replace(' ', "");
                if f == "exec::leave" || f == "leave" || f == "gstd::exec::leave" { *e = parse_quote!({ __vx_leave!(); vleave() }); return true }
                if let Some(n) = f.strip_prefix("Self::").map(|n| (Some("InvariantService"), n.to_string())).or_else(|| if f.chars().all(|c| c.is_alphanumeric() || c == '_') { Some((None, f.clone())) } else { None }) {
                    let (st, lg, pk) = self.callee_extra(n.0, &n.1);
                    if st || lg { if self.cx.known.contains(&n.1) { for a in c.args.iter_mut() { self.visit_expr_mut(a) } if st { c.args.push(parse_quote!(invariant)) } if lg { c.args.push(parse_quote!(vlog)) } if pk { let x = e.clone(); *e = parse_quote!(#x.vunwrap()); } return true } }
                }
                false
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) => {
                let ne = matches!(b.op, BinOp::Ne(_));
                if lit_str(&b.right) { let (mut l, r) = ((*b.left).clone(), &b.right); self.visit_expr_mut(&mut l); *e = if ne { parse_quote!(!vstr_eq(&#l, #r)) } else { parse_quote!(vstr_eq(&#l, #r)) }; return true }
                fn up(p: &Path) -> bool { p.segments.len() >= 2 && p.segments.iter().rev().take(2).all(|s| { let t = s.ident.to_string(); t.chars().next().unwrap().is_uppercase() && t.chars().any(|c| c.is_lowercase()) }) }
                let pat: Option<Pat> = match &*b.right { Expr::Path(p) if up(&p.path) => { let p = &p.path; Some(parse_quote!(#p)) }
                    Expr::Call(c) if c.args.len() == 1 && c.func.to_token_stream().to_string() == "Err" => match &c.args[0] { Expr::Path(p) if up(&p.path) => { let p = &p.path; Some(parse_quote!(Err(#p))) } _ => None }, _ => None };
                if let Some(p) = pat { let mut l = (*b.left).clone(); self.visit_expr_mut(&mut l); *e = if ne { parse_quote!((match #l { #p => false, _ => true })) } else { parse_quote!((match #l { #p => true, _ => false })) }; return true }
                false
            }
            Expr::If(i) => {
                // if let Some(x) = v.iter_mut().find(|p| cond) { .. }: the search it is
                if let Expr::Let(l) = &*i.cond { if let (Pat::TupleStruct(ts), Expr::MethodCall(fd)) = (&*l.pat, &*l.expr) { if fd.method == "find" && fd.args.len() == 1 && ts.elems.len() == 1 && ts.path.to_token_stream().to_string() == "Some" {
                    if let (Expr::MethodCall(it), Some((Some(cp), cb)), Pat::Ident(x)) = (&*fd.receiver, closure1(&fd.args[0]), &ts.elems[0]) { if (it.method == "iter_mut" || it.method == "iter") && it.args.is_empty() && !has_return(&cb) {
                        let mu = it.method == "iter_mut"; let n = self.n; self.n += 1; let f = Ident::new(&format!("__f{n}"), proc_macro2::Span::call_site()); let h = Ident::new(&format!("__h{n}"), proc_macro2::Span::call_site());
                        let (mut v, mut cb, mut th, el) = ((*it.receiver).clone(), cb, i.then_branch.clone(), i.else_branch.clone()); self.visit_expr_mut(&mut v); self.visit_expr_mut(&mut cb); self.visit_block_mut(&mut th);
                        let th = th.stmts; let el: Vec<Stmt> = match el { Some((_, b)) => { let mut b = *b; self.visit_expr_mut(&mut b); match b { Expr::Block(b) => b.block.stmts, b => vec![Stmt::Expr(b, None)] } } None => vec![] };
                        let bind: Stmt = if mu { parse_quote!(let #x = &mut #v[#f];) } else { parse_quote!(let #x = &#v[#f];) };
                        *e = parse_quote!({ let mut #f: usize = 0; let mut #h = false; while !#h && #f < #v.len() { let #cp = &#v[#f]; if #cb { #h = true; } else { #f += 1; } } if #h { #bind #(#th)* } else { #(#el)* } }); return true
                    } } } } }
                false
            }
            Expr::ForLoop(f) => {
                struct C(bool); impl<'a> Visit<'a> for C { fn visit_expr_continue(&mut self, _c: &'a ExprContinue) { self.0 = true } }
                let mut c = C(false); c.visit_block(&f.body); if c.0 { return false }
                let (pat, mut body) = ((*f.pat).clone(), f.body.clone());
                let mut it = &*f.expr; while let Expr::Paren(p) = it { it = &p.expr; }
                let n = self.n; self.n += 1; let k = Ident::new(&format!("__k{n}"), proc_macro2::Span::call_site()); let end = Ident::new(&format!("__end{n}"), proc_macro2::Span::call_site()); let go = Ident::new(&format!("__go{n}"), proc_macro2::Span::call_site());
                let bs; 
                match it {
                    Expr::Range(r) => { if let (Some(lo), Some(hi), Pat::Ident(pi)) = (&r.start, &r.end, &pat) { let id = &pi.ident; let (mut lo, mut hi) = ((**lo).clone(), (**hi).clone()); self.visit_expr_mut(&mut lo); self.visit_expr_mut(&mut hi); self.visit_block_mut(&mut body); bs = body.stmts;
                        // a literal bound takes its type from the other one
                        let swap = matches!(lo, Expr::Lit(_));
                        let (s1, s2): (Stmt, Stmt) = (parse_quote!(let mut #id = #lo;), parse_quote!(let #end = #hi;));
                        let (s1, s2) = if swap { (s2, s1) } else { (s1, s2) };
                        *e = if matches!(r.limits, RangeLimits::HalfOpen(_)) { parse_quote!({ #s1 #s2 while #id < #end { #(#bs)* #id += 1; } }) } else { parse_quote!({ #s1 #s2 let mut #go = #id <= #end; while #go { #(#bs)* if #id == #end { #go = false; } else { #id += 1; } } }) };
                        return true } }
                    Expr::Path(p) if p.path.get_ident().map(|x| self.ranges.contains(&x.to_string())).unwrap_or(false) => { if let Pat::Ident(pi) = &pat { let id = &pi.ident; self.visit_block_mut(&mut body); bs = body.stmts;
                        *e = parse_quote!({ let mut #id = #p.lo; let #end = #p.hi; let mut #go = #id <= #end; while #go { #(#bs)* if #id == #end { #go = false; } else { #id += 1; } } }); return true } }
                    Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => { let mut v = (*m.receiver).clone(); self.visit_expr_mut(&mut v); self.visit_block_mut(&mut body); bs = body.stmts;
                        *e = parse_quote!({ let mut #k: usize = 0; while #k < #v.len() { let #pat = &#v[#k]; #(#bs)* #k += 1; } }); return true }
                    Expr::Reference(rf) if rf.mutability.is_none() && matches!(&*rf.expr, Expr::Path(_) | Expr::Field(_)) => { let mut v = (*rf.expr).clone(); self.visit_expr_mut(&mut v); self.visit_block_mut(&mut body); bs = body.stmts;
                        *e = parse_quote!({ let mut #k: usize = 0; while #k < #v.len() { let #pat = &#v[#k]; #(#bs)* #k += 1; } }); return true }
                    // v.iter().take(n): the first n
                    Expr::MethodCall(m) if m.method == "take" && m.args.len() == 1 && matches!(&*m.receiver, Expr::MethodCall(i) if i.method == "iter" && i.args.is_empty()) => { if let Expr::MethodCall(i) = &*m.receiver {
                        let (mut v, mut t) = ((*i.receiver).clone(), m.args[0].clone()); self.visit_expr_mut(&mut v); self.visit_expr_mut(&mut t); self.visit_block_mut(&mut body); bs = body.stmts; let tk = Ident::new(&format!("__t{n}"), proc_macro2::Span::call_site());
                        *e = parse_quote!({ let mut #k: usize = 0; let #tk: usize = #t; while #k < #v.len() && #k < #tk { let #pat = &#v[#k]; #(#bs)* #k += 1; } }); return true } }
                    Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() && self.opts.contains_key("forvec") && matches!(&*m.receiver, Expr::Path(_)) => { let p = (*m.receiver).clone(); self.visit_block_mut(&mut body); bs = body.stmts;
                        *e = parse_quote!({ let __v = #p; let mut #k: usize = 0; while #k < __v.len() { let #pat = __v[#k]; #(#bs)* #k += 1; } }); return true }
                    Expr::MethodCall(m) if m.method == "enumerate" && m.args.is_empty() && matches!(&pat, Pat::Tuple(t) if t.elems.len() == 2) => { if let (Expr::MethodCall(i), Pat::Tuple(t)) = (&*m.receiver, &pat) { let owned = i.method == "into_iter"; if (owned || i.method == "iter") && i.args.is_empty() {
                        let (x, y) = (&t.elems[0], &t.elems[1]); let mut v = (*i.receiver).clone(); self.visit_expr_mut(&mut v); self.visit_block_mut(&mut body); bs = body.stmts; let vv = Ident::new(&format!("__v{n}"), proc_macro2::Span::call_site());
                        *e = if owned { parse_quote!({ let #vv = #v; let mut #k: usize = 0; while #k < #vv.len() { let #x = #k; let #y = #vv[#k]; #(#bs)* #k += 1; } }) } else { parse_quote!({ let #vv = &#v; let mut #k: usize = 0; while #k < #vv.len() { let #x = #k; let #y = &#vv[#k]; #(#bs)* #k += 1; } }) }; return true } } }
                    Expr::Path(p) if self.opts.contains_key("forvec") => { self.visit_block_mut(&mut body); bs = body.stmts;
                        *e = parse_quote!({ let __v = #p; let mut #k: usize = 0; while #k < __v.len() { let #pat = __v[#k]; #(#bs)* #k += 1; } }); return true }
                    _ => {}
                }
                false
            }
            _ => false,
        }
    }
    /// v.iter().map(f)..map(g) collected: the loop it is
    fn chain(&mut self, r: &Expr) -> Option<Expr> {
        let mut maps = vec![]; let mut cur = r.clone();
        loop { match cur { Expr::MethodCall(m) if m.method == "map" && m.args.len() == 1 => { let (p, b) = closure1(&m.args[0])?; maps.push((p?, b)); cur = *m.receiver; }
            Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => { cur = *m.receiver; break } _ => return None } }
        if maps.is_empty() { return None }
        maps.reverse();
        let mut v = cur; self.visit_expr_mut(&mut v);
        let mut st: Vec<Stmt> = vec![];
        let mut pairs = false;
        for (i, (p, b)) in maps.into_iter().enumerate() {
            let mut b = b; self.visit_expr_mut(&mut b);
            if i == 0 { if let Pat::Tuple(t) = &p { if t.elems.len() == 2 { pairs = true; let (x, y) = (&t.elems[0], &t.elems[1]); st.push(parse_quote!(let #x = &__src[__k].0;)); st.push(parse_quote!(let #y = &__src[__k].1;)); } }
                if !pairs { st.push(parse_quote!(let #p = &__src[__k];)); } }
            else { st.push(parse_quote!(let #p = __m;)); }
            st.push(parse_quote!(let __m = #b;));
        }
        let src: Expr = if pairs { parse_quote!(#v.vpairs()) } else { parse_quote!(&#v) };
        Some(parse_quote!({ let __src = #src; let mut __c = Vec::new(); let mut __k: usize = 0; while __k < __src.len() { #(#st)* __c.push(__m); __k += 1; } __c }))
    }

    fn inline_call(&mut self, name: &str, is_self: bool, args: Vec<Expr>, try_ok: bool) -> Option<Expr> {
        if self.depth > 4 || (if self.svc && is_self { self.cx.under.contains(name) } else { self.cx.known.contains(name) }) { return None }
        let mut cands: Vec<(Found, std::rc::Rc<Src>)> = vec![];
        let ty = self.imp.as_ref().map(|i| crate::type_ident(&i.self_ty));
        let mut paths = vec![self.src.path.clone()];
        paths.extend(self.cx.search.clone());
        for p in paths {
            let s = self.cx.src(&p);
            if is_self { if let Some(t) = &ty { if let Some(f) = find_fn(&s, &format!("{t}::{name}")) { cands.push((f, s.clone())); break } } }
            else if let Some(f) = find_fn(&s, name) { cands.push((f, s.clone())); break }
        }
        let (found, hsrc) = cands.into_iter().next()?;
        let mut b = found.f.block.clone();
        let mut h = HasRet { q: false, r: false, aw: false };
        h.visit_block(&b);
        if h.r || (h.aw && !self.svc) || (h.q && !try_ok) || !found.f.sig.generics.params.is_empty() { return None }
        let mut stmts: Vec<Stmt> = vec![];
        let mut binds: Vec<Stmt> = vec![];
        let mut ai = args.into_iter();
        for a in &found.f.sig.inputs {
            match a {
                FnArg::Receiver(_) => { let e = ai.next()?; if e.to_token_stream().to_string() != "self" { return None } }
                FnArg::Typed(t) => {
                    let e = ai.next()?; self.n += 1;
                    let tmp = Ident::new(&format!("__inl{}_{}", self.depth, self.n), proc_macro2::Span::call_site());
                    let (pat, mut ty) = (t.pat.clone(), (*t.ty).clone());
                    TyRw.visit_type_mut(&mut ty);
                    stmts.push(parse_quote!(let #tmp: #ty = #e;));
                    binds.push(parse_quote!(let #pat = #tmp;));
                }
            }
        }
        stmts.extend(binds);
        self.cx.notes.push(format!("inlined helper {name}"));
        let save = self.depth; self.depth += 1;
        let hs: &Src = &hsrc;
        let mut sub = Rw { cx: self.cx, src: hs, imp: found.imp.clone().or(self.imp.clone()), opts: self.opts.clone(), depth: self.depth, n: self.n, svc: self.svc, ranges: vec![] };
        if sub.svc { sub.service_block(&mut b); }
        sub.visit_block_mut(&mut b);
        self.n = sub.n;
        self.depth = save;
        stmts.extend(b.stmts);
        Some(parse_quote!({ #(#stmts)* }))
    }

    fn try_inline(&mut self, e: &Expr, try_ok: bool) -> Option<Expr> {
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if p.qself.is_some() { return None }
                    let n = p.path.segments.len();
                    let last = p.path.segments.last()?;
                    if !last.arguments.is_none() { return None }
                    let name = last.ident.to_string();
                    if !name.chars().next()?.is_lowercase() { return None }
                    let selfp = n == 2 && (p.path.segments[0].ident == "Self" || self.imp.as_ref().map(|i| p.path.segments[0].ident == crate::type_ident(&i.self_ty)).unwrap_or(false));
                    let modp = n >= 1 && p.path.segments.iter().take(n - 1).all(|s| s.ident.to_string().chars().next().unwrap().is_lowercase() && !PRIMS.contains(&s.ident.to_string().as_str()));
                    if selfp || modp { return self.inline_call(&name, selfp, c.args.iter().cloned().collect(), try_ok) }
                }
                None
            }
            Expr::MethodCall(m) => {
                if m.receiver.to_token_stream().to_string() != "self" || m.turbofish.is_some() { return None }
                let mut a: Vec<Expr> = vec![(*m.receiver).clone()];
                a.extend(m.args.iter().cloned());
                self.inline_call(&m.method.to_string(), true, a, try_ok)
            }
            Expr::Paren(p) => self.try_inline(&p.expr, try_ok),
            _ => None,
        }
    }

    fn mac(&mut self, m: &Macro, stmt: bool) -> Option<Expr> {
        let n = mac_name(m);
        Some(match n.as_str() {
            "err" => parse_quote!(verr()),
            "ok_or_mark_trace" => { let mut e: Expr = m.parse_body().ok()?; if let Some(i) = self.try_inline(&e, true) { e = i } else { self.visit_expr_mut(&mut e) } parse_quote!((#e)) }
            "from_result" => { let mut e: Expr = m.parse_body().ok()?; self.visit_expr_mut(&mut e); parse_quote!(vfrom_result(#e)) }
            "unwrap" => { let mut e: Expr = m.parse_body().ok()?; self.visit_expr_mut(&mut e); parse_quote!(#e.vunwrap()) }
            "panic" | "unreachable" | "unimplemented" | "todo" => if stmt { parse_quote!(vpanic::<()>()) } else { parse_quote!(vpanic()) },
            "format" | "function" | "location" | "format_args" => parse_quote!(vstring()),
            "assert" => {
                let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let mut c = args[0].clone(); self.visit_expr_mut(&mut c);
                parse_quote!(if !(#c) { vpanic::<()>() })
            }
            "assert_eq" | "assert_ne" => {
                let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let (mut a, mut b) = (args[0].clone(), args[1].clone()); self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut b);
                if n == "assert_eq" { parse_quote!(if !((#a) == (#b)) { vpanic::<()>() }) } else { parse_quote!(if (#a) == (#b) { vpanic::<()>() }) }
            }
            "join" if self.svc => {
                let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                if args.len() != 2 { return None }
                let (mut a, mut b) = (args[0].clone(), args[1].clone()); self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut b);
                parse_quote!(vjoin(#a, #b, invariant, vlog))
            }
            "vec" => { if m.tokens.is_empty() { parse_quote!(Vec::new()) } else { return None } }
            "debug_assert" | "debug_assert_eq" | "debug_assert_ne" | "println" | "debug" | "eprintln" => parse_quote!(()),
            "matches" => {
                // matches!(e, pat [if g])
                let (mut e, p, g) = m.parse_body_with(|i: parse::ParseStream| {
                    let e: Expr = i.parse()?; i.parse::<Token![,]>()?; let p = Pat::parse_multi_with_leading_vert(i)?;
                    let g: Option<Expr> = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None };
                    let _: Option<Token![,]> = i.parse()?; Ok((e, p, g)) }).ok()?;
                self.visit_expr_mut(&mut e);
                // literal array patterns become a binding and a guard
                struct AP { conds: Vec<Expr>, n: usize }
                impl VisitMut for AP { fn visit_pat_mut(&mut self, p: &mut Pat) {
                    if let Pat::Slice(sl) = p { if sl.elems.iter().all(|x| matches!(x, Pat::Lit(_))) {
                        let id = Ident::new(&format!("__a{}", self.n), proc_macro2::Span::call_site()); self.n += 1;
                        for (i, x) in sl.elems.iter().enumerate() { let i = LitInt::new(&i.to_string(), proc_macro2::Span::call_site()); self.conds.push(parse_quote!(#id[#i] == #x)); }
                        *p = parse_quote!(#id); return
                    } }
                    visit_mut::visit_pat_mut(self, p)
                } }
                let (mut p, mut g) = (p, g);
                let mut ap = AP { conds: vec![], n: 0 }; ap.visit_pat_mut(&mut p);
                if !ap.conds.is_empty() { let c = ap.conds; g = Some(match g { None => parse_quote!(#(#c)&&*), Some(g) => parse_quote!(#(#c)&&* && (#g)) }); }
                match g { None => parse_quote!((match #e { #p => true, _ => false })), Some(mut g) => { self.visit_expr_mut(&mut g); parse_quote!((match #e { #p if #g => true, _ => false })) } }
            }
            _ => return None,
        })
    }
}

/// body of a closure whose parameters are single patterns
fn has_return(e: &Expr) -> bool { struct R(bool); impl<'a> Visit<'a> for R { fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true } fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true } fn visit_expr_closure(&mut self, _: &'a ExprClosure) {} } let mut r = R(false); r.visit_expr(e); r.0 }
/// a closure whose body does not leave it early (written in place of the call it would leave the function)
fn stays(e: &Expr) -> bool {
    struct L(bool);
    impl<'a> Visit<'a> for L {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true }
        fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true }
        fn visit_macro(&mut self, m: &'a Macro) { let t = m.tokens.to_string(); if t.contains('?') || t.contains("return") { self.0 = true } }
    }
    let mut l = L(false);
    l.visit_expr(e);
    !l.0
}

fn closure1(e: &Expr) -> Option<(Option<Pat>, Expr)> {
    if let Expr::Closure(c) = e {
        if c.inputs.len() > 1 { return None }
        let mut p = c.inputs.first().cloned();
        if let Some(Pat::Type(t)) = &p { p = Some((*t.pat).clone()) }
        return Some((p, (*c.body).clone()));
    }
    None
}

impl<'a> VisitMut for Rw<'a> {
    fn visit_attribute_mut(&mut self, _a: &mut Attribute) {}
    fn visit_local_mut(&mut self, l: &mut Local) {
        l.attrs.clear();
        visit_mut::visit_local_mut(self, l);
        // let PAT = e else { diverge };
        if let Some(init) = &mut l.init {
            if let Some((_, d)) = init.diverge.take() {
                let pat = l.pat.clone(); let e = init.expr.clone();
                // only simple one-binding patterns
                if let Pat::TupleStruct(ts) = &pat {
                    if ts.elems.len() == 1 { if let Pat::Ident(pi) = &ts.elems[0] { let id = pi.ident.clone(); let p = pi.clone(); 
                        let d = match &*d { Expr::Block(b) => b.block.clone(), _ => unreachable!() };
                        let mut p2 = p.clone(); p2.mutability = None;
                        let path = &ts.path;
                        *init.expr = parse_quote!(match #e { #path(#p2) => #id, _ => #d });
                        l.pat = Pat::Ident(p);
                        return
                    } }
                }
                init.diverge = Some((Default::default(), d));
            }
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Use(_))));
        if self.svc {
            // the build without features
            b.stmts.retain(|s| match s { Stmt::Expr(Expr::Block(x), _) => !crate::cfg_out(&x.attrs), Stmt::Local(l) => !crate::cfg_out(&l.attrs), _ => true });
            for s in b.stmts.iter_mut() { if let Stmt::Expr(Expr::Block(x), _) = s { x.attrs.clear() } }
        }
        for s in b.stmts.iter_mut() { if let Stmt::Item(Item::Const(c)) = s { let (n, t, e) = (c.ident.clone(), c.ty.clone(), c.expr.clone()); *s = parse_quote!(let #n: #t = #e;); } }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(e) = self.mac(&m.mac, m.semi_token.is_some()) {
                let semi = m.semi_token;
                *s = match semi { Some(t) => Stmt::Expr(e, Some(t)), None => Stmt::Expr(e, None) };
                if let Stmt::Expr(e, semi) = s { if matches!(e, Expr::If(_)) && semi.is_none() { return } }
                return
            }
        }
        if let Stmt::Expr(Expr::Macro(m), semi) = s {
            let st = semi.is_some();
            if let Some(e) = self.mac(&m.mac, st) { *s = Stmt::Expr(e, *semi); return }
        }
        visit_mut::visit_stmt_mut(self, s);
        if let Stmt::Expr(Expr::Block(b), Some(_)) = s { if b.block.stmts.len() == 2 && b.block.stmts[1].to_token_stream().to_string().replace(' ', "") == "vleave()" { b.block.stmts[1] = parse_quote!(vleave::<()>();); } }
        // statement `x.panic_fmt(..);`
        if let Stmt::Expr(Expr::Call(c), Some(_)) = s { if c.func.to_token_stream().to_string() == "vpanic" { *c.func = parse_quote!(vpanic::<()>); } }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.svc && self.svc_expr(e) { return }
        // inlining of helpers, before anything else
        match e {
            Expr::Try(t) => { if let Some(b) = self.try_inline(&t.expr.clone(), true) { *t.expr = parse_quote!((#b)); return } }
            Expr::Await(a) => { let i = (*a.base).clone(); *e = i; return self.visit_expr_mut(e) }
            _ => { if let Some(b) = self.try_inline(&e.clone(), false) { *e = b; return } }
        }
        if let Expr::Macro(m) = e { if let Some(n) = self.mac(&m.mac.clone(), false) { *e = n; return } }
        // calls whose content is only text
        if lit_str(e) { *e = parse_quote!(vstring()); return }
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            match name.as_str() {
                "or_insert" if m.args.len() == 1 => {
                    if let Expr::MethodCall(en) = &*m.receiver { if en.method == "entry" && en.args.len() == 1 {
                        let (mut r, mut k, mut v) = ((*en.receiver).clone(), en.args[0].clone(), m.args[0].clone()); self.visit_expr_mut(&mut r); self.visit_expr_mut(&mut k); self.visit_expr_mut(&mut v);
                        *e = parse_quote!(#r.ventry(#k, #v)); return
                    } }
                }
                "collect" if m.args.is_empty() => {
                    // (a..b).map(|p| body).collect(): the loop it is
                    if let Expr::MethodCall(mm) = &*m.receiver { if mm.method == "map" && mm.args.len() == 1 {
                        let mut rc = &*mm.receiver; while let Expr::Paren(p) = rc { rc = &p.expr; }
                        if let (Expr::Range(rg), Some((Some(Pat::Ident(pi)), bd))) = (rc, closure1(&mm.args[0])) { if let (Some(lo), Some(hi), RangeLimits::HalfOpen(_)) = (&rg.start, &rg.end, &rg.limits) {
                            let (mut lo, mut hi, mut bd, id) = ((**lo).clone(), (**hi).clone(), bd, pi.ident.clone()); self.visit_expr_mut(&mut lo); self.visit_expr_mut(&mut hi); self.visit_expr_mut(&mut bd);
                            *e = parse_quote!({ let mut __c = Vec::new(); let __end = #hi; let mut #id = #lo; while #id < __end { let __x = #bd; __c.push(__x); #id += 1; } __c }); return
                        } }
                    } }
                }
                "position" if m.args.len() == 1 => {
                    // v.iter().position(|p| body): the loop it is
                    if let (Expr::MethodCall(mm), Some((Some(Pat::Ident(pi)), bd))) = (&*m.receiver, closure1(&m.args[0])) { if mm.method == "iter" && mm.args.is_empty() {
                        let (mut v, mut bd, id) = ((*mm.receiver).clone(), bd, pi.ident.clone()); self.visit_expr_mut(&mut v); self.visit_expr_mut(&mut bd);
                        *e = parse_quote!({ let mut __i: usize = 0; let mut __r: Option<usize> = None; while __r.is_none() && __i < #v.len() { let #id = &#v[__i]; if #bd { __r = Some(__i); } else { __i += 1; } } __r }); return
                    } }
                }
                "find" if m.args.len() == 1 => {
                    // v.iter().find(|p| body): the loop it is
                    if let (Expr::MethodCall(mm), Some((Some(Pat::Ident(pi)), bd))) = (&*m.receiver, closure1(&m.args[0])) { if mm.method == "iter" && mm.args.is_empty() && !has_return(&bd) {
                        let (mut v, mut bd, id) = ((*mm.receiver).clone(), bd, pi.ident.clone()); self.visit_expr_mut(&mut v); self.visit_expr_mut(&mut bd);
                        *e = parse_quote!({ let mut __i: usize = 0; let mut __h = false; while !__h && __i < #v.len() { let #id = &#v[__i]; if #bd { __h = true; } else { __i += 1; } } if __h { Some(&#v[__i]) } else { None } }); return
                    } }
                }
                "contains" if m.args.len() == 1 => {
                    // (lo..=hi).contains(&x)
                    let mut rc = &*m.receiver; while let Expr::Paren(p) = rc { rc = &p.expr; } 
                    if let (Expr::Range(rg), Expr::Reference(x)) = (rc, &m.args[0]) { if let (Some(lo), Some(hi)) = (&rg.start, &rg.end) {
                        let (mut lo, mut hi, mut x) = ((**lo).clone(), (**hi).clone(), (*x.expr).clone()); self.visit_expr_mut(&mut lo); self.visit_expr_mut(&mut hi); self.visit_expr_mut(&mut x);
                        *e = if matches!(rg.limits, RangeLimits::Closed(_)) { parse_quote!(((#lo) <= (#x) && (#x) <= (#hi))) } else { parse_quote!(((#lo) <= (#x) && (#x) < (#hi))) }; return
                    } }
                }
                "unwrap" | "expect" => { let mut r = (*m.receiver).clone(); self.visit_expr_mut(&mut r); *e = parse_quote!(#r.vunwrap()); return }
                "unwrap_or_else" if m.args.len() == 1 => {
                    if has_panic(&m.args[0]) { let mut r = (*m.receiver).clone(); self.visit_expr_mut(&mut r); *e = parse_quote!(#r.vunwrap()); return }
                    if let Some((None, b)) = closure1(&m.args[0]) { let (mut r, mut b) = ((*m.receiver).clone(), b); self.visit_expr_mut(&mut r); self.visit_expr_mut(&mut b); *e = parse_quote!(match #r { Some(__v) => __v, None => #b }); return }
                    if let Some((Some(p), b)) = closure1(&m.args[0]) { let (mut r, mut b) = ((*m.receiver).clone(), b); self.visit_expr_mut(&mut r); self.visit_expr_mut(&mut b); *e = parse_quote!(match #r { Ok(__v) => __v, Err(#p) => #b }); return }
                }
                "ok_or_else" if m.args.len() == 1 => {
                    if let Some((_, b)) = closure1(&m.args[0]) { let (mut r, mut b) = ((*m.receiver).clone(), b); self.visit_expr_mut(&mut r); self.visit_expr_mut(&mut b); *e = parse_quote!(#r.ok_or(#b)); return }
                }
                "map_err" if m.args.len() == 1 => {
                    if let Some((p, b)) = closure1(&m.args[0]) {
                        let (mut r, mut b) = ((*m.receiver).clone(), b); self.visit_expr_mut(&mut r); self.visit_expr_mut(&mut b);
                        let _ = p;
                        *e = parse_quote!(vmap_err(#r, #b)); return
                    }
                }
                "and_then" if m.args.len() == 1 && (self.opts.contains_key("and_then_option") || (self.optional(&m.receiver) && stays(&m.args[0]))) => {
                    if let Some((Some(p), b)) = closure1(&m.args[0]) { let (mut r, mut b) = ((*m.receiver).clone(), b);
                        // `x.into()` as the whole result: the conversion into Option (anything else would not typecheck after this)
                        if let Expr::MethodCall(i) = &b { if i.method == "into" && i.args.is_empty() { let x = &i.receiver; b = parse_quote!(Some(#x)); } }
                        self.visit_expr_mut(&mut r); self.visit_expr_mut(&mut b); *e = parse_quote!(match #r { Some(#p) => #b, None => None }); return }
                }
                "map" if m.args.len() == 1 && (self.opts.contains_key("map_option") || (self.optional(&m.receiver) && stays(&m.args[0]))) => {
                    if let Some((Some(p), b)) = closure1(&m.args[0]) { let (mut r, mut b) = ((*m.receiver).clone(), b); self.visit_expr_mut(&mut r); self.visit_expr_mut(&mut b); *e = parse_quote!(match #r { Some(#p) => Some(#b), None => None }); return }
                }
                "map_or" if m.args.len() == 2 => {
                    if let Some((Some(p), b)) = closure1(&m.args[1]) { let (mut d, mut r, mut b) = (m.args[0].clone(), (*m.receiver).clone(), b); self.visit_expr_mut(&mut d); self.visit_expr_mut(&mut r); self.visit_expr_mut(&mut b); *e = parse_quote!(match #r { Some(#p) => #b, None => #d }); return }
                }
                "map_or_else" if m.args.len() == 2 => {
                    if let (Some((None, d)), Some((Some(p), b))) = (closure1(&m.args[0]), closure1(&m.args[1])) { let (mut d, mut r, mut b) = (d, (*m.receiver).clone(), b); self.visit_expr_mut(&mut d); self.visit_expr_mut(&mut r); self.visit_expr_mut(&mut b); *e = parse_quote!(match #r { Some(#p) => #b, None => #d }); return }
                }
                "checked_div" | "checked_rem" if m.args.len() == 1 && self.opts.contains_key("cdivrem") => { let (mut r, mut x) = ((*m.receiver).clone(), m.args[0].clone()); self.visit_expr_mut(&mut r); self.visit_expr_mut(&mut x);
                    *e = if name == "checked_div" { parse_quote!((#r).vchecked_div(#x)) } else { parse_quote!((#r).vchecked_rem(#x)) }; return }
                "try_into" if m.args.is_empty() => { let mut r = (*m.receiver).clone(); self.visit_expr_mut(&mut r); *e = parse_quote!(#r.vtry_into()); return }
                // the reflexive conversion of a tuple (any other target would not typecheck after this)
                "into" if m.args.is_empty() && matches!(&*m.receiver, Expr::Tuple(_)) => { let mut r = (*m.receiver).clone(); self.visit_expr_mut(&mut r); *e = r; return }
                "into" if m.args.is_empty() => { let mut r = (*m.receiver).clone(); self.visit_expr_mut(&mut r); *e = parse_quote!(#r.vinto()); return }
                _ => {}
            }
        }
        if let Expr::Call(c) = e {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            if f.ends_with("panicking::panic_fmt") || f.ends_with("panicking::panic") || f.ends_with("panicking::unreachable_display") { *e = parse_quote!(vpanic()); return }
            if f.ends_with("must_use") || f.ends_with("fmt::format") || f == "String::from" { *e = parse_quote!(vstring()); return }
            if c.args.len() == 1 && (f.ends_with("::from") || f.ends_with("::try_from")) && !f.ends_with("Tick::from") {
                if let Expr::Path(p) = &mut *c.func {
                    let n = p.path.segments.len();
                    let t = p.path.segments[n - 1].ident.to_string();
                    p.path.segments[n - 1].ident = Ident::new(&format!("v{t}"), proc_macro2::Span::call_site());
                    if p.path.segments[0].ident == "From" { p.path.segments[0].ident = Ident::new("VFrom", proc_macro2::Span::call_site()); }
                }
            }
            if f == "TrackableError::new" || f == "TrackableError::cast" { *e = parse_quote!(verr()); return }
        }
        visit_mut::visit_expr_mut(self, e);
        if self.opts.contains_key("divrem") {
            if let Expr::Binary(b) = e {
                let (l, r) = (b.left.clone(), b.right.clone());
                match b.op { BinOp::Div(_) => { *e = parse_quote!((#l).vdiv(#r)) } BinOp::Rem(_) => { *e = parse_quote!((#l).vrem(#r)) } _ => {} }
            }
        }
        // parenthesised literal compare etc: nothing
        let _ = strip_ref(e);
    }
}

thread_local! { pub static LOST: std::cell::RefCell<Vec<String>> = Default::default(); }
/// a proof hint (never a specification) has no place in the code any more: the proof goes on without it, and what then fails in this function is undecided
fn lost(m: String) { LOST.with(|l| l.borrow_mut().push(m)) }

/// markers for ghost text
pub fn insert_ghosts(b: &mut Block, sp: &Spec) -> Ghosts {
    let mut ghosts: Vec<String> = vec![];
    // loops
    struct L(usize);
    impl VisitMut for L {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            let body = match e { Expr::ForLoop(f) => Some(&mut f.body), Expr::While(w) => Some(&mut w.body), Expr::Loop(l) => Some(&mut l.body), _ => None };
            if let Some(bd) = body { let k = self.0; self.0 += 1; let k = LitInt::new(&k.to_string(), proc_macro2::Span::call_site()); bd.stmts.insert(0, parse_quote!(__vx_loop!(#k);)); }
            visit_mut::visit_expr_mut(self, e)
        }
        fn visit_expr_closure_mut(&mut self, _e: &mut ExprClosure) {}
    }
    L(0).visit_block_mut(b);
    fn mk(i: usize) -> Stmt { let k = LitInt::new(&i.to_string(), proc_macro2::Span::call_site()); parse_quote!(__vx_ghost!(#k);) }
    // start and end of loop bodies
    struct LB { k: usize, seen: usize, m: Stmt, end: bool, done: bool }
    impl VisitMut for LB {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            let body = match e { Expr::ForLoop(f) => Some(&mut f.body), Expr::While(w) => Some(&mut w.body), Expr::Loop(l) => Some(&mut l.body), _ => None };
            if let Some(bd) = body { if self.seen == self.k && !self.done { self.done = true;
                if self.end { if let Some(Stmt::Expr(_, semi)) = bd.stmts.last_mut() { if semi.is_none() { *semi = Some(Default::default()); } } bd.stmts.push(self.m.clone()) } else { bd.stmts.insert(1, self.m.clone()) } } self.seen += 1; }
            visit_mut::visit_expr_mut(self, e)
        }
        fn visit_expr_closure_mut(&mut self, _e: &mut ExprClosure) {}
    }
    for (end, map) in [(false, &sp.loopin), (true, &sp.loopend)] { for (k, t) in map {
        let i = ghosts.len(); ghosts.push(t.clone());
        let mut a = LB { k: *k, seen: 0, m: mk(i), end, done: false };
        a.visit_block_mut(b);
        if !a.done { crate::die(format!("lost anchor: no loop number {k}")) }
    } }
    // where the message ends
    if !sp.atleave.trim().is_empty() { let i = ghosts.len(); ghosts.push(sp.atleave.clone());
        struct V(Stmt); impl VisitMut for V { fn visit_stmt_mut(&mut self, s: &mut Stmt) { if s.to_token_stream().to_string().replace(' ', "").starts_with("__vx_leave!()") { *s = self.0.clone(); return } visit_mut::visit_stmt_mut(self, s) } }
        V(mk(i)).visit_block_mut(b); }
    // after-let anchors
    struct A<'s> { name: &'s str, k: usize, seen: usize, m: Stmt, done: bool }
    impl<'s> VisitMut for A<'s> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let mut i = 0;
            while i < b.stmts.len() {
                self.visit_stmt_mut(&mut b.stmts[i]);
                let hit = match &b.stmts[i] {
                    Stmt::Local(l) => { let t = l.pat.to_token_stream().to_string(); t.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| w == self.name) }
                    Stmt::Expr(Expr::Assign(a), _) => a.left.to_token_stream().to_string().replace(' ', "") == self.name,
                    _ => false,
                };
                if hit && !self.done { if self.seen == self.k { b.stmts.insert(i + 1, self.m.clone()); self.done = true; i += 1; } self.seen += 1; }
                i += 1;
            }
        }
    }
    for (n, k, t) in &sp.after {
        let i = ghosts.len(); ghosts.push(t.clone());
        let mut a = A { name: n, k: *k, seen: 0, m: mk(i), done: false };
        a.visit_block_mut(b);
        if !a.done { lost(format!("no binding or assignment of `{n}` (occurrence {k})")) }
    }
    // after the k-th statement of the body that calls the function or method
    for (n, k, t) in &sp.afterstmt {
        struct C<'s>(&'s str, bool);
        impl<'a, 's> syn::visit::Visit<'a> for C<'s> {
            fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) { if m.method == self.0 { self.1 = true } syn::visit::visit_expr_method_call(self, m) }
            fn visit_expr_call(&mut self, c: &'a syn::ExprCall) { if let Expr::Path(p) = &*c.func { if p.path.segments.last().map(|x| x.ident == self.0).unwrap_or(false) { self.1 = true } } syn::visit::visit_expr_call(self, c) }
        }
        let mut at = None; let mut seen = 0;
        for (i, st) in b.stmts.iter().enumerate() {
            if i + 1 == b.stmts.len() && matches!(st, Stmt::Expr(_, None)) { break }
            let mut c = C(n, false); syn::visit::Visit::visit_stmt(&mut c, st);
            if c.1 { if seen == *k { at = Some(i); break } seen += 1; }
        }
        let Some(at) = at else { lost(format!("no statement calling `{n}` (occurrence {k})")); continue };
        let i = ghosts.len(); ghosts.push(t.clone());
        b.stmts.insert(at + 1, mk(i));
    }
    // after the k-th `if` statement without else
    struct I { k: usize, seen: usize, m: Stmt, done: bool }
    impl VisitMut for I {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let mut i = 0;
            while i < b.stmts.len() {
                let hit = matches!(&b.stmts[i], Stmt::Expr(Expr::If(f), _) if f.else_branch.is_none() && i + 1 < b.stmts.len());
                if hit && !self.done { if self.seen == self.k { b.stmts.insert(i + 1, self.m.clone()); self.done = true; return } self.seen += 1; }
                self.visit_stmt_mut(&mut b.stmts[i]);
                if self.done { return }
                i += 1;
            }
        }
    }
    for (k, t) in &sp.afterif {
        let i = ghosts.len(); ghosts.push(t.clone());
        let mut a = I { k: *k, seen: 0, m: mk(i), done: false };
        a.visit_block_mut(b);
        if !a.done { lost(format!("no if statement number {k}")) }
    }
    if !sp.pre.trim().is_empty() { let i = ghosts.len(); ghosts.push(sp.pre.clone()); b.stmts.insert(0, mk(i)); }
    if !sp.tail.trim().is_empty() {
        let i = ghosts.len(); ghosts.push(sp.tail.clone());
        // a final `return X;` is a tail expression
        if let Some(Stmt::Expr(Expr::Return(r), Some(_))) = b.stmts.last() { if let Some(x) = r.expr.clone() { b.stmts.pop(); b.stmts.push(Stmt::Expr(*x, None)); } }
        let tail_expr = matches!(b.stmts.last(), Some(Stmt::Expr(_, None)));
        if tail_expr {
            let Some(Stmt::Expr(e, None)) = b.stmts.pop() else { unreachable!() };
            b.stmts.push(parse_quote!(let __tail = #e;));
            b.stmts.push(mk(i));
            b.stmts.push(Stmt::Expr(parse_quote!(__tail), None));
        } else { b.stmts.push(mk(i)); }
    }
    Ghosts { ghosts }
}

/// VX_BRANCH (a development aid, no part of a check): a mark at the start of every branch, so that a branch the contracts make
/// unreachable - code that would be proved vacuously - can be found
pub fn mark_branches(b: &mut Block) {
    struct M(usize);
    impl M {
        fn put(&mut self, b: &mut Block) {
            let k = self.0; self.0 += 1;
            let st: Stmt = parse_quote!(__vx_br!(#k););
            let at = b.stmts.iter().take_while(|s| s.to_token_stream().to_string().starts_with("__vx_loop")).count();
            b.stmts.insert(at, st);
        }
    }
    impl VisitMut for M {
        fn visit_expr_if_mut(&mut self, e: &mut ExprIf) {
            visit_mut::visit_expr_if_mut(self, e);
            self.put(&mut e.then_branch);
            if let Some((_, x)) = &mut e.else_branch { if let Expr::Block(b) = &mut **x { self.put(&mut b.block) } }
        }
        fn visit_arm_mut(&mut self, a: &mut Arm) {
            visit_mut::visit_arm_mut(self, a);
            let body = &a.body;
            let mut b: Block = if let Expr::Block(b) = &**body { if b.label.is_none() { b.block.clone() } else { parse_quote!({ #body }) } } else { parse_quote!({ #body }) };
            self.put(&mut b);
            a.body = Box::new(parse_quote!(#b));
        }
        fn visit_expr_while_mut(&mut self, e: &mut ExprWhile) { visit_mut::visit_expr_while_mut(self, e); self.put(&mut e.body); }
        fn visit_expr_loop_mut(&mut self, e: &mut ExprLoop) { visit_mut::visit_expr_loop_mut(self, e); self.put(&mut e.body); }
    }
    let mut m = M(0);
    m.visit_block_mut(b);
    // what runs after the last branch
    let k = m.0;
    let n = b.stmts.len();
    if n > 0 && m.0 > 0 { b.stmts.insert(n - 1, parse_quote!(__vx_br!(#k);)); }
}
