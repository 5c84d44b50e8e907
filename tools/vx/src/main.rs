//! vx: mechanical extraction of functions of /repo for the deductive verifier.
//!
//! Reads a JSON request on stdin, answers JSON on stdout.  For every requested item the *current* source
//! text of /repo is parsed with syn and re-emitted as Rust text with
//!   - numbered loop markers (`__vx!("L3")` ...) at which the driver attaches invariants,
//!   - the desugarings listed in DESIGN.md (each one is reported back in `notes`).
//! Nothing is emitted that was not derived from the source by these rules.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashMap};
use std::io::Read;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

// ---------------------------------------------------------------- printing

fn pretty(ts: TokenStream) -> String {
    let mut out = String::new();
    pp(ts, &mut out, 1);
    out
}

fn nl(out: &mut String, ind: usize) {
    while out.ends_with(' ') {
        out.pop();
    }
    out.push('\n');
    for _ in 0..ind {
        out.push_str("    ");
    }
}

fn pp(ts: TokenStream, out: &mut String, ind: usize) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let n = v.len();
    for (i, t) in v.iter().enumerate() {
        match t {
            TokenTree::Group(g) => match g.delimiter() {
                Delimiter::Parenthesis => {
                    while out.ends_with(' ') && i > 0 && matches!(v[i - 1], TokenTree::Ident(_)) && !is_kw(&v[i - 1]) {
                        out.pop();
                    }
                    out.push('(');
                    pp(g.stream(), out, ind);
                    while out.ends_with(' ') {
                        out.pop();
                    }
                    out.push_str(") ");
                }
                Delimiter::Bracket => {
                    while out.ends_with(' ')
                        && i > 0
                        && (matches!(&v[i - 1], TokenTree::Ident(_)) && !is_kw(&v[i - 1]) || matches!(&v[i - 1], TokenTree::Group(_)))
                    {
                        out.pop();
                    }
                    out.push('[');
                    pp(g.stream(), out, ind);
                    while out.ends_with(' ') {
                        out.pop();
                    }
                    out.push_str("] ");
                }
                Delimiter::Brace => {
                    out.push('{');
                    nl(out, ind + 1);
                    pp(g.stream(), out, ind + 1);
                    nl(out, ind);
                    out.push('}');
                    // stay on the line for `else`, `,`, `;`, `)`, `.`
                    let cont = match v.get(i + 1) {
                        Some(TokenTree::Ident(id)) => *id == "else",
                        Some(TokenTree::Punct(_)) => true,
                        None => true,
                        _ => false,
                    };
                    if cont {
                        out.push(' ');
                    } else {
                        nl(out, ind);
                    }
                }
                Delimiter::None => pp(g.stream(), out, ind),
            },
            TokenTree::Punct(p) => {
                let c = p.as_char();
                if matches!(c, ';' | ',' | '.' | '?') || (c == '!' && i > 0 && matches!(v[i - 1], TokenTree::Ident(_))) {
                    while out.ends_with(' ') {
                        out.pop();
                    }
                }
                out.push(c);
                if c == ';' {
                    if i + 1 < n {
                        nl(out, ind);
                    }
                } else if c == '.' {
                } else if p.spacing() == Spacing::Alone {
                    if !(c == '&' || c == '!' && i > 0 && matches!(v[i - 1], TokenTree::Ident(_))) {
                        out.push(' ');
                    }
                }
            }
            TokenTree::Ident(id) => {
                out.push_str(&id.to_string());
                out.push(' ');
            }
            TokenTree::Literal(l) => {
                out.push_str(&l.to_string());
                out.push(' ');
            }
        }
    }
}

fn is_kw(t: &TokenTree) -> bool {
    if let TokenTree::Ident(i) = t {
        matches!(
            i.to_string().as_str(),
            "in" | "match" | "if" | "while" | "return" | "let" | "mut" | "else" | "as" | "for" | "break" | "ref" | "move"
        )
    } else {
        false
    }
}

// ---------------------------------------------------------------- index of the crate

#[derive(Clone)]
struct FnInfo {
    file: String,
    path: String, // "name" or "Type::name"
    sig: Signature,
    block: Block,
    trait_impl: bool,
}

struct Crate {
    fns: Vec<FnInfo>,
    files: HashMap<String, File>,
}

fn load(src: &str, inline_mods: &[String]) -> Crate {
    let mut files = HashMap::new();
    let mut fns = vec![];
    let mut errs: Vec<String> = vec![];
    fn walk(dir: &std::path::Path, root: &std::path::Path, acc: &mut Vec<(String, std::path::PathBuf)>) {
        let mut es: Vec<_> = std::fs::read_dir(dir).unwrap().flatten().collect();
        es.sort_by_key(|e| e.path());
        for e in es {
            let p = e.path();
            if p.is_dir() {
                if p.file_name().unwrap() != "tests" {
                    walk(&p, root, acc)
                }
            } else if p.extension().map_or(false, |x| x == "rs") {
                acc.push((p.strip_prefix(root).unwrap().to_string_lossy().into_owned(), p.clone()))
            }
        }
    }
    let mut acc = vec![];
    walk(std::path::Path::new(src), std::path::Path::new(src), &mut acc);
    let _ = inline_mods;
    for (rel, p) in acc {
        let text = match std::fs::read_to_string(&p) { Ok(t) => t, Err(e) => { errs.push(format!("{rel}: {e}")); continue } };
        match syn::parse_file(&text) {
            Ok(f) => {
                collect(&rel, &f.items, &mut fns);
                files.insert(rel, f);
            }
            Err(e) => errs.push(format!("{rel}: {e}")),
        }
    }
    Crate { fns, files }
}

fn collect(rel: &str, items: &[Item], fns: &mut Vec<FnInfo>) {
    for it in items {
        match it {
            Item::Fn(f) => fns.push(FnInfo { file: rel.into(), path: f.sig.ident.to_string(), sig: f.sig.clone(), block: (*f.block).clone(), trait_impl: false }),
            Item::Impl(im) => {
                let ty = match &*im.self_ty {
                    Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                    _ => continue,
                };
                for ii in &im.items {
                    if let ImplItem::Fn(f) = ii {
                        fns.push(FnInfo {
                            file: rel.into(),
                            path: format!("{}::{}", ty, f.sig.ident),
                            sig: f.sig.clone(),
                            block: f.block.clone(),
                            trait_impl: im.trait_.is_some(),
                        });
                    }
                }
            }
            Item::Mod(m) => {
                if let Some((_, its)) = &m.content {
                    if m.ident != "verif" {
                        collect(rel, its, fns)
                    }
                }
            }
            _ => {}
        }
    }
}

// ---------------------------------------------------------------- helpers on ASTs

struct HasReturn(bool);
impl<'a> Visit<'a> for HasReturn {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
fn has_return_block(b: &Block) -> bool {
    let mut h = HasReturn(false);
    h.visit_block(b);
    h.0
}
fn has_return_stmt(b: &Stmt) -> bool {
    let mut h = HasReturn(false);
    h.visit_stmt(b);
    h.0
}

/// turn a function body with (structured) early returns into an expression block without `return`
fn returnless(stmts: &[Stmt]) -> Option<Vec<Stmt>> {
    let mut out = vec![];
    for (i, s) in stmts.iter().enumerate() {
        if !has_return_stmt(s) {
            out.push(s.clone());
            continue;
        }
        // `return e;` / tail `return e`
        if let Stmt::Expr(Expr::Return(r), _) = s {
            match &r.expr {
                Some(e) => {
                    let mut h = HasReturn(false);
                    h.visit_expr(e);
                    if h.0 { return None; }
                    out.push(Stmt::Expr((**e).clone(), None));
                }
                None => {}
            }
            return Some(out);
        }
        if let Stmt::Expr(Expr::If(ei), _) = s {
            let mut h = HasReturn(false);
            h.visit_expr(&ei.cond);
            if h.0 {
                return None;
            }
            let rest = &stmts[i + 1..];
            let ends = |b: &[Stmt]| matches!(b.last(), Some(Stmt::Expr(Expr::Return(_), _)));
            let mut then_stmts = ei.then_branch.stmts.clone();
            if !ends(&then_stmts) {
                then_stmts.extend(rest.iter().cloned());
            }
            let mut else_stmts: Vec<Stmt> = match &ei.else_branch {
                None => vec![],
                Some((_, e)) => match &**e {
                    Expr::Block(b) => b.block.stmts.clone(),
                    other => vec![Stmt::Expr(other.clone(), if rest.is_empty() { None } else { Some(Default::default()) })],
                },
            };
            if !ends(&else_stmts) {
                else_stmts.extend(rest.iter().cloned());
            }
            let t = returnless(&then_stmts)?;
            let e = returnless(&else_stmts)?;
            let cond = &ei.cond;
            let ne: Expr = parse_quote!(if #cond { #(#t)* } else { #(#e)* });
            out.push(Stmt::Expr(ne, None));
            return Some(out);
        }
        return None;
    }
    Some(out)
}

struct Replacer<'a> {
    from: &'a str,
    to: TokenStream,
}
fn replace_ident(ts: TokenStream, r: &Replacer) -> TokenStream {
    ts.into_iter()
        .flat_map(|t| -> Vec<TokenTree> {
            match t {
                TokenTree::Ident(ref i) if *i == r.from => r.to.clone().into_iter().collect(),
                TokenTree::Group(g) => {
                    let mut ng = proc_macro2::Group::new(g.delimiter(), replace_ident(g.stream(), r));
                    ng.set_span(g.span());
                    vec![TokenTree::Group(ng)]
                }
                t => vec![t],
            }
        })
        .collect()
}

fn pat_idents(p: &Pat, out: &mut Vec<String>) {
    struct V<'a>(&'a mut Vec<String>);
    impl<'a, 'b> Visit<'b> for V<'a> {
        fn visit_pat_ident(&mut self, p: &'b PatIdent) {
            self.0.push(p.ident.to_string());
            visit::visit_pat_ident(self, p);
        }
    }
    V(out).visit_pat(p)
}

// ---------------------------------------------------------------- the transformation of one function

struct Ctx<'a> {
    krate: &'a Crate,
    file: String,
    known: &'a BTreeSet<String>, // functions under contract in this unit ("name" or "Type::name")
    notes: Vec<String>,
    inlined: Vec<String>,
    depth: usize,
    fresh: usize,
    self_ty: Option<String>,
    keep_debug_assert: bool,
    no_inline: bool,
}

fn simple_recv(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.get_ident().is_some(),
        Expr::Reference(r) => simple_recv(&r.expr),
        Expr::Paren(p) => simple_recv(&p.expr),
        Expr::Field(f) => simple_recv(&f.base),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && simple_recv(&u.expr),
        _ => false,
    }
}

impl<'a> Ctx<'a> {
    fn lookup_fn(&self, name: &str, ty: Option<&str>, method: bool) -> Option<FnInfo> {
        let mut c: Vec<&FnInfo> = self
            .krate
            .fns
            .iter()
            .filter(|f| {
                !f.trait_impl
                    && match ty {
                        Some(t) => f.path == format!("{t}::{name}"),
                        None => {
                            if method {
                                f.path.ends_with(&format!("::{name}"))
                            } else {
                                f.path == name
                            }
                        }
                    }
            })
            .collect();
        if c.len() > 1 {
            c.retain(|f| f.file == self.file);
        }
        if c.len() == 1 {
            Some(c[0].clone())
        } else {
            None
        }
    }
    fn is_known(&self, f: &FnInfo) -> bool {
        let last = f.path.rsplit("::").next().unwrap();
        self.known.contains(&f.path) || (!f.path.contains("::") && self.known.contains(last))
    }
    fn try_inline(&mut self, f: &FnInfo, recv: Option<&Expr>, args: Vec<Expr>) -> Option<Expr> {
        if self.no_inline || self.depth > 4 {
            return None;
        }
        let stmts = if has_return_block(&f.block) { returnless(&f.block.stmts)? } else { f.block.stmts.clone() };
        let mut pats: Vec<Pat> = vec![];
        let mut tys: Vec<Type> = vec![];
        let mut has_self = false;
        for a in &f.sig.inputs {
            match a {
                FnArg::Receiver(_) => has_self = true,
                FnArg::Typed(t) => {
                    pats.push((*t.pat).clone());
                    tys.push((*t.ty).clone());
                }
            }
        }
        let mut args = args;
        let mut recv = recv.cloned();
        if has_self && recv.is_none() {
            if args.is_empty() {
                return None;
            }
            recv = Some(args.remove(0));
        }
        if pats.len() != args.len() || !f.sig.generics.params.is_empty() {
            return None;
        }
        let mut body = Block { brace_token: Default::default(), stmts };
        if has_self {
            let mut r = recv.unwrap();
            if !simple_recv(&r) {
                return None;
            }
            while let Expr::Reference(x) = r {
                r = *x.expr;
            }
            let ts = replace_ident(body.to_token_stream(), &Replacer { from: "self", to: quote!(#r) });
            body = syn::parse2(ts).ok()?;
        }
        if let Some(ty) = f.path.split("::").next().filter(|_| f.path.contains("::")) {
            let id = Ident::new(ty, proc_macro2::Span::call_site());
            let ts = replace_ident(body.to_token_stream(), &Replacer { from: "Self", to: quote!(#id) });
            body = syn::parse2(ts).ok()?;
        }
        // nested inlining happens with the callee's file as context
        let save = std::mem::replace(&mut self.file, f.file.clone());
        self.depth += 1;
        Inliner { cx: self }.visit_block_mut(&mut body);
        self.depth -= 1;
        self.file = save;
        self.inlined.push(f.path.clone());
        let stmts = body.stmts;
        // evaluate all arguments before any parameter name is bound
        let mut pre: Vec<Stmt> = vec![];
        if args.len() == 1 {
            let (p, t, a) = (&pats[0], &tys[0], &args[0]);
            pre.push(parse_quote!(let #p : #t = #a;));
        } else if args.len() > 1 {
            let mut tmps = vec![];
            for (t, a) in tys.iter().zip(args.iter()) {
                // an argument that is the parameter's own name needs no temporary
                self.fresh += 1;
                let tmp = Ident::new(&format!("vx_arg{}", self.fresh), proc_macro2::Span::call_site());
                pre.push(parse_quote!(let #tmp : #t = #a;));
                tmps.push(tmp);
            }
            for (p, tmp) in pats.iter().zip(tmps.iter()) {
                pre.push(parse_quote!(let #p = #tmp;));
            }
        }
        Some(parse_quote!({ #(#pre)* #(#stmts)* }))
    }
}

struct Inliner<'a, 'b> {
    cx: &'b mut Ctx<'a>,
}
impl<'a, 'b> VisitMut for Inliner<'a, 'b> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let rep = match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let name = segs.last().unwrap().clone();
                    let ty = if segs.len() >= 2 {
                        let t = segs[segs.len() - 2].clone();
                        if t == "Self" {
                            self.cx.self_ty.clone()
                        } else if t.chars().next().unwrap().is_uppercase() {
                            Some(t)
                        } else {
                            None
                        }
                    } else {
                        None
                    };
                    match self.cx.lookup_fn(&name, ty.as_deref(), false) {
                        Some(f) if !self.cx.is_known(&f) => {
                            let args = c.args.iter().cloned().collect();
                            self.cx.try_inline(&f, None, args)
                        }
                        _ => None,
                    }
                } else {
                    None
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let ty = if let (Expr::Path(p), Some(t)) = (&*m.receiver, &self.cx.self_ty) {
                    if p.path.is_ident("self") {
                        Some(t.clone())
                    } else {
                        None
                    }
                } else {
                    None
                };
                match self.cx.lookup_fn(&name, ty.as_deref(), true) {
                    Some(f) if !self.cx.is_known(&f) => {
                        let r = (*m.receiver).clone();
                        let args = m.args.iter().cloned().collect();
                        self.cx.try_inline(&f, Some(&r), args)
                    }
                    _ => None,
                }
            }
            _ => None,
        };
        if let Some(r) = rep {
            *e = r;
        }
    }
}

// ---- normalisations

fn macro_name(m: &Macro) -> String {
    m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

struct Norm<'n> {
    notes: &'n mut Vec<String>,
    keep_debug_assert: bool,
    locals: BTreeSet<String>,
    sets: BTreeSet<String>,
    ref_sets: BTreeSet<String>,
    fresh: usize,
    collect_set: bool,
    iproduct_ref: bool,
    /// parameters that are references to lists
    ref_params: BTreeSet<String>,
}

fn first_arg(m: &Macro) -> Option<Vec<Expr>> {
    let p = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
    Some(p.into_iter().collect())
}

#[derive(Clone)]
enum Tree { Leaf(Expr), Pair(Box<Tree>, Box<Tree>) }
impl Tree {
    fn expr(&self) -> Expr { match self { Tree::Leaf(e) => e.clone(), Tree::Pair(a, b) => { let (a, b) = (a.expr(), b.expr()); parse_quote!((#a, #b)) } } }
    /// the bindings a pattern makes of it (of a reference to it)
    fn bind(&self, p: &Pat, by_ref: bool, out: &mut Vec<Stmt>) -> Option<()> {
        match (p, self) {
            (Pat::Paren(q), _) => self.bind(&q.pat, by_ref, out),
            (Pat::Wild(_), _) => Some(()),
            (Pat::Tuple(t), Tree::Pair(a, b)) if t.elems.len() == 2 => { a.bind(&t.elems[0], by_ref, out)?; b.bind(&t.elems[1], by_ref, out) }
            (Pat::Reference(r), _) if by_ref => self.bind(&r.pat, false, out),
            (Pat::Ident(_), _) | (Pat::Reference(_), Tree::Leaf(_)) => { let e = self.expr(); out.push(if by_ref { parse_quote!(let #p = &#e;) } else { parse_quote!(let #p = #e;) }); Some(()) }
            _ => None,
        }
    }
}
impl<'n> Norm<'n> {
    fn mac_expr(&mut self, m: &Macro) -> Option<Option<Expr>> {
        // Some(None): drop; Some(Some(e)): replace
        match macro_name(m).as_str() {
            "println" | "print" | "eprintln" | "eprint" | "dbg" => {
                self.notes.push(format!("dropped {}!", macro_name(m)));
                Some(None)
            }
            "debug_assert" | "debug_assert_eq" | "debug_assert_ne" if !self.keep_debug_assert => {
                self.notes.push(format!("dropped {}!", macro_name(m)));
                Some(None)
            }
            "assert" | "debug_assert" => {
                let a = first_arg(m)?;
                let c = a.first()?;
                Some(Some(parse_quote!(vx_assert(#c))))
            }
            "assert_eq" | "debug_assert_eq" => {
                let a = first_arg(m)?;
                let (x, y) = (a.get(0)?, a.get(1)?);
                Some(Some(parse_quote!(vx_assert(#x == #y))))
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => Some(Some(parse_quote!(vx_panic()))),
            _ => None,
        }
    }
}

/// `let mut it = CHAIN; let x = it.next();` with `it` used nowhere else
fn merge_iterator_locals(b: &mut Block) {
    let mut k = 0;
    while k + 1 < b.stmts.len() {
        let hit = (|| {
            let l = match &b.stmts[k] { Stmt::Local(l) => l, _ => return None };
            let it = match &l.pat { Pat::Ident(i) => i.ident.to_string(), _ => return None };
            let init = l.init.as_ref()?;
            let m = match strip_paren(&init.expr) { Expr::MethodCall(m) if m.method == "filter" => m.clone(), _ => return None };
            let l2 = match &b.stmts[k + 1] { Stmt::Local(l) => l, _ => return None };
            let i2 = l2.init.as_ref()?;
            let nx = match strip_paren(&i2.expr) { Expr::MethodCall(n) if n.method == "next" && tokstr(&n.receiver) == it => n, _ => return None };
            let _ = nx;
            if b.stmts[k + 2..].iter().any(|s| mentions(s, &it)) { return None; }
            let pat = l2.pat.clone();
            let st: Stmt = parse_quote!(let #pat = #m.next(););
            Some(st)
        })();
        if let Some(st) = hit {
            b.stmts[k] = st;
            b.stmts.remove(k + 1);
        }
        k += 1;
    }
}
impl<'n> VisitMut for Norm<'n> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        merge_iterator_locals(b);
        visit_mut::visit_block_mut(self, b);
        let mut out: Vec<Stmt> = vec![];
        for s in b.stmts.drain(..) {
            match s {
                Stmt::Macro(sm) => match self.mac_expr(&sm.mac) {
                    Some(None) => {}
                    Some(Some(e)) => {
                        let semi = sm.semi_token.or(Some(Default::default()));
                        if macro_name(&sm.mac) == "panic" && sm.semi_token.is_none() {
                            out.push(Stmt::Expr(e, None));
                        } else {
                            out.push(Stmt::Expr(e, semi));
                        }
                    }
                    None => out.push(Stmt::Macro(sm)),
                },
                s => out.push(s),
            }
        }
        // an `if` whose block became empty because only dropped statements were in it
        out.retain(|s| match s {
            Stmt::Expr(Expr::If(i), _) => {
                !(i.then_branch.stmts.is_empty() && i.else_branch.is_none() && matches!(&*i.cond, Expr::Unary(_) | Expr::Path(_)) && is_pure(&i.cond))
            }
            _ => true,
        });
        // while -> for
        b.stmts = self.while_to_for(out);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // f32 arithmetic goes to the shadow type F32
        if let Expr::Cast(c) = e {
            if tokstr(&c.ty) == "f32" {
                let inner = strip_paren(&c.expr);
                let sign = match inner {
                    Expr::MethodCall(m) if m.method == "pow" && tokstr(strip_paren(&m.receiver)).replace(' ', "").starts_with("-1") => m.args.first().cloned(),
                    _ => None,
                };
                *e = match sign {
                    Some(x) => parse_quote!(vx_signf(#x)),
                    None => parse_quote!(F32::vx_of(#inner)),
                };
            }
        }
        if let Expr::Cast(c) = e {
            if tokstr(&c.ty) == "f64" {
                let inner = strip_paren(&c.expr);
                *e = parse_quote!(F64::vx_of(#inner));
            }
        }
        if let Expr::Cast(c) = e {
            if let (true, Expr::MethodCall(m)) = (tokstr(&c.ty) == "isize", strip_paren(&c.expr)) {
                if m.method == "round" && m.args.is_empty() {
                    let inner = strip_paren(&m.receiver);
                    *e = parse_quote!(vx_iround(#inner));
                }
            }
        }
        if tokstr(e).replace(' ', "") == "f32::EPSILON.sqrt()" {
            *e = parse_quote!(F32::vx_sqrt_eps());
        }
        if let Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) = e {
            if let Ok(v) = f.base10_parse::<f64>() {
                if (2.0 * v).fract() == 0.0 && v.abs() < 1000.0 && f.suffix() != "f64" {
                    let k = proc_macro2::Literal::i32_unsuffixed((2.0 * v) as i32);
                    *e = parse_quote!(F32::vx_lit(#k));
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Macro(m) = e {
            match self.mac_expr(&m.mac) {
                Some(None) => *e = parse_quote!(()),
                Some(Some(n)) => *e = n,
                None => {}
            }
        }
        // for (P, Q) in iproduct!(A, B) over two lists of copyable elements: nested loops over references
        if self.iproduct_ref {
            let n: Option<Expr> = if let Expr::ForLoop(f) = e {
                (|| {
                    let m = match strip_paren(&f.expr) { Expr::Macro(m) if macro_name(&m.mac) == "iproduct" => m, _ => return None };
                    let args = first_arg(&m.mac)?;
                    let pt = match &*f.pat { Pat::Tuple(t) if t.elems.len() == 2 => t, _ => return None };
                    if args.len() != 2 || !args.iter().all(|a| matches!(a, Expr::Path(_))) || f.label.is_some() { return None; }
                    let (a, b, p, q) = (&args[0], &args[1], &pt.elems[0], &pt.elems[1]);
                    let stmts = &f.body.stmts;
                    self.fresh += 1;
                    let x = Ident::new(&format!("vx_p{}", self.fresh), proc_macro2::Span::call_site());
                    let y = Ident::new(&format!("vx_q{}", self.fresh), proc_macro2::Span::call_site());
                    Some(parse_quote!(for #x in #a.iter() { for #y in #b.iter() { let #p = *#x; let #q = *#y; #(#stmts)* } }))
                })()
            } else { None };
            if let Some(n) = n {
                self.notes.push("iproduct! over two lists read as nested loops over the lists".into());
                *e = n;
            }
        }
        // for (i, x) in PATH.iter().enumerate()
        if let Expr::ForLoop(f) = e {
            let hit = (|| {
                let en = match strip_paren(&f.expr) { Expr::MethodCall(m) if m.method == "enumerate" && m.args.is_empty() => m, _ => return None };
                let it = match strip_paren(&en.receiver) { Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => m, _ => return None };
                let src = match strip_paren(&it.receiver) { Expr::Path(p) => { p.path.get_ident()?; p.clone() } _ => return None };
                let pt = match &*f.pat { Pat::Tuple(t) if t.elems.len() == 2 => t, _ => return None };
                let i = match &pt.elems[0] { Pat::Ident(i) => i.ident.clone(), Pat::Wild(_) => Ident::new("vx_ei", proc_macro2::Span::call_site()), _ => return None };
                Some((i, pt.elems[1].clone(), src))
            })();
            if let Some((i, pat, src)) = hit {
                self.notes.push("for loop over iter().enumerate() read as a for loop over the indices".into());
                *f.pat = parse_quote!(#i);
                *f.expr = parse_quote!(0..#src.len());
                f.body.stmts.insert(0, parse_quote!(let #pat = &#src[#i];));
            }
        }
        // for (p, q) in A.iter().zip(B.iter())
        if let Expr::ForLoop(f) = e {
            let hit = (|| {
                let z = match strip_paren(&f.expr) { Expr::MethodCall(m) if m.method == "zip" && m.args.len() == 1 => m, _ => return None };
                let it = |e: &Expr| -> Option<Expr> { match strip_paren(e) { Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() && matches!(strip_paren(&m.receiver), Expr::Path(_) | Expr::Field(_)) => Some((*m.receiver).clone()), _ => None } };
                let (a, b) = (it(&z.receiver)?, it(&z.args[0])?);
                let pt = match &*f.pat { Pat::Tuple(t) if t.elems.len() == 2 => t, _ => return None };
                if f.label.is_some() { return None; }
                Some((a, b, pt.elems[0].clone(), pt.elems[1].clone()))
            })();
            if let Some((a, b, p, q)) = hit {
                self.fresh += 1;
                let k = Ident::new(&format!("vx_z{}", self.fresh), proc_macro2::Span::call_site());
                self.notes.push("for loop over a zip of two lists read as a for loop over the indices".into());
                *f.pat = parse_quote!(#k);
                *f.expr = parse_quote!(0..vx_min(#a.len(), #b.len()));
                f.body.stmts.insert(0, parse_quote!(let #q = &#b[#k];));
                f.body.stmts.insert(0, parse_quote!(let #p = &#a[#k];));
            }
        }
        // for &x in ..
        if let Expr::ForLoop(f) = e {
            let hit = match &*f.pat { Pat::Reference(r) if r.mutability.is_none() => match &*r.pat { Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => Some(i.clone()), _ => None }, _ => None };
            if let Some(id) = hit {
                self.fresh += 1;
                let v = Ident::new(&format!("vx_r{}", self.fresh), proc_macro2::Span::call_site());
                *f.pat = parse_quote!(#v);
                f.body.stmts.insert(0, parse_quote!(let #id = *#v;));
            }
        }
        // for x in &SET / SET
        if let Expr::ForLoop(f) = e {
            let (inner, by_ref) = match strip_paren(&f.expr) {
                Expr::Reference(r) => ((*r.expr).clone(), true),
                o => (o.clone(), false),
            };
            if let Expr::Path(p) = &inner {
                if let Some(id) = p.path.get_ident() {
                    if self.sets.contains(&id.to_string()) {
                        if by_ref || self.ref_sets.contains(&id.to_string()) {
                            *f.expr = parse_quote!(#id.iter());
                        } else {
                            *f.expr = parse_quote!(#id.into_iter());
                        }
                    }
                }
            }
        }
        // (a,b) = (x,y)
        if let Expr::Assign(a) = e {
            if let (Expr::Tuple(l), r) = (&*a.left, &*a.right) {
                let lhs: Vec<Expr> = l.elems.iter().cloned().collect();
                let mut tm = vec![];
                for _ in &lhs {
                    self.fresh += 1;
                    tm.push(Ident::new(&format!("vx_t{}", self.fresh), proc_macro2::Span::call_site()));
                }
                *e = parse_quote!({ let (#(#tm),*) = #r; #(#lhs = #tm;)* });
            }
        }
        // a call through a local function pointer
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if let Some(id) = p.path.get_ident() {
                    if self.locals.contains(&id.to_string()) {
                        let args = &c.args;
                        *e = parse_quote!(#id.vx_call(#args));
                    }
                }
            }
        }
        // iterator chains over ranges: (a..b).map(|x| E).sum()
        if let Some(n) = self.iter_chain(e) {
            *e = n;
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if macro_name(m) == "vec" {
            type L = syn::punctuated::Punctuated<Expr, Token![,]>;
            struct Rep(Expr, Expr);
            impl parse::Parse for Rep {
                fn parse(input: parse::ParseStream) -> Result<Self> {
                    let a: Expr = input.parse()?;
                    let _: Token![;] = input.parse()?;
                    Ok(Rep(a, input.parse()?))
                }
            }
            if let Ok(mut r) = m.parse_body::<Rep>() {
                self.visit_expr_mut(&mut r.0);
                self.visit_expr_mut(&mut r.1);
                let (a, b) = (&r.0, &r.1);
                m.tokens = quote!(#a; #b);
            } else if let Ok(mut l) = m.parse_body_with(L::parse_terminated) {
                for x in l.iter_mut() {
                    self.visit_expr_mut(x);
                }
                m.tokens = quote!(#l);
            }
        }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        for x in p.segments.iter_mut() {
            if x.ident == "Quaternion" {
                x.arguments = PathArguments::None;
            }
        }
        // everything is extracted into one module
        let first = p.segments.first().map(|x| x.ident.to_string()).unwrap_or_default();
        if p.segments.len() > 1 && matches!(first.as_str(), "super" | "crate" | "self") {
            let v: Vec<PathSegment> = p.segments.iter().cloned().collect();
            let mut k = 0;
            while k + 1 < v.len() && v[k].ident.to_string().chars().next().map_or(false, |c| c.is_lowercase()) {
                k += 1;
            }
            let mut q: syn::punctuated::Punctuated<PathSegment, Token![::]> = Default::default();
            for x in &v[k..] {
                q.push(x.clone());
            }
            p.segments = q;
            p.leading_colon = None;
        }
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::BareFn(_) = t {
            *t = parse_quote!(VxFnPtr);
        }
        if let Type::Path(p) = t {
            if let Some(l) = p.path.segments.last() {
                if l.ident == "Quaternion" {
                    *t = parse_quote!(Quaternion);
                } else if l.ident == "f32" {
                    *t = parse_quote!(F32);
                }
            }
        }
    }
}

fn is_pure(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Unary(u) => is_pure(&u.expr),
        Expr::Binary(b) => is_pure(&b.left) && is_pure(&b.right),
        Expr::Paren(p) => is_pure(&p.expr),
        Expr::Field(f) => is_pure(&f.base),
        Expr::Reference(f) => is_pure(&f.expr),
        Expr::MethodCall(m) => m.method == "len" && is_pure(&m.receiver),
        Expr::Index(i) => is_pure(&i.expr) && is_pure(&i.index),
        Expr::Tuple(t) => t.elems.iter().all(is_pure),
        _ => false,
    }
}

fn tokstr<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Group(p) => strip_paren(&p.expr),
        e => e,
    }
}

struct LoopScan {
    cont: bool,
    brk: bool,
    depth: usize,
}
impl<'a> Visit<'a> for LoopScan {
    fn visit_expr_continue(&mut self, c: &'a ExprContinue) {
        if c.label.is_none() && self.depth == 0 {
            self.cont = true
        }
    }
    fn visit_expr_break(&mut self, c: &'a ExprBreak) {
        if c.label.is_none() && self.depth == 0 {
            self.brk = true
        }
        visit::visit_expr_break(self, c);
    }
    fn visit_expr_for_loop(&mut self, f: &'a ExprForLoop) {
        self.depth += 1;
        visit::visit_expr_for_loop(self, f);
        self.depth -= 1;
    }
    fn visit_expr_while(&mut self, f: &'a ExprWhile) {
        self.depth += 1;
        visit::visit_expr_while(self, f);
        self.depth -= 1;
    }
    fn visit_expr_loop(&mut self, f: &'a ExprLoop) {
        self.depth += 1;
        visit::visit_expr_loop(self, f);
        self.depth -= 1;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
fn scan_loop(b: &Block) -> LoopScan {
    let mut s = LoopScan { cont: false, brk: false, depth: 0 };
    s.visit_block(b);
    s
}

struct Assigned<'x>(&'x str, bool);
fn root_ident(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Field(f) => root_ident(&f.base),
        Expr::Index(f) => root_ident(&f.expr),
        Expr::Paren(f) => root_ident(&f.expr),
        Expr::Unary(f) => root_ident(&f.expr),
        Expr::Reference(f) => root_ident(&f.expr),
        Expr::MethodCall(f) => root_ident(&f.receiver),
        _ => None,
    }
}
impl<'a, 'x> Visit<'a> for Assigned<'x> {
    fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
        if root_ident(&a.left).as_deref() == Some(self.0) {
            self.1 = true
        }
        visit::visit_expr_assign(self, a);
    }
    fn visit_expr_binary(&mut self, b: &'a ExprBinary) {
        let asg = matches!(
            b.op,
            BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::RemAssign(_) | BinOp::BitXorAssign(_) | BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_)
        );
        if asg && root_ident(&b.left).as_deref() == Some(self.0) {
            self.1 = true
        }
        visit::visit_expr_binary(self, b);
    }
    fn visit_expr_reference(&mut self, r: &'a ExprReference) {
        if r.mutability.is_some() && root_ident(&r.expr).as_deref() == Some(self.0) {
            self.1 = true
        }
        visit::visit_expr_reference(self, r);
    }
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        let n = m.method.to_string();
        if root_ident(&m.receiver).as_deref() == Some(self.0)
            && !matches!(n.as_str(), "len" | "iter" | "clone" | "size" | "values" | "sequence" | "sequences" | "abs" | "contains" | "is_empty" | "to_vec")
        {
            self.1 = true
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_macro(&mut self, _: &'a ExprMacro) {}
}
fn assigned(b: &Block, id: &str) -> bool {
    let mut a = Assigned(id, false);
    a.visit_block(b);
    a.1
}
fn mentions<T: ToTokens>(t: &T, id: &str) -> bool {
    fn go(ts: TokenStream, id: &str) -> bool {
        ts.into_iter().any(|t| match t {
            TokenTree::Ident(i) => i == id,
            TokenTree::Group(g) => go(g.stream(), id),
            _ => false,
        })
    }
    go(t.to_token_stream(), id)
}

// ---------- locals that only feed reports (println!, debug_assert!) ----------
fn dropped_macro(n: &str) -> bool {
    matches!(n, "println" | "print" | "eprintln" | "eprint" | "dbg" | "debug_assert" | "debug_assert_eq" | "debug_assert_ne")
}
/// an expression that has no effect and whose only failure could be arithmetic of a count or a clock
fn quiet(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Unary(u) => quiet(&u.expr),
        Expr::Binary(b) => quiet(&b.left) && quiet(&b.right),
        Expr::Paren(p) => quiet(&p.expr),
        Expr::Field(f) => quiet(&f.base),
        Expr::Reference(f) => f.mutability.is_none() && quiet(&f.expr),
        Expr::Cast(c) => quiet(&c.expr),
        Expr::Closure(c) => quiet(&c.body),
        Expr::Call(c) => tokstr(&c.func).replace(' ', "").ends_with("Instant::now") && c.args.is_empty(),
        Expr::MethodCall(m) => {
            quiet(&m.receiver) && m.args.iter().all(quiet)
                && matches!(m.method.to_string().as_str(), "len" | "iter" | "map" | "sum" | "count" | "elapsed" | "as_secs" | "as_secs_f32" | "as_secs_f64" | "as_seconds_f32" | "as_seconds_f64" | "as_millis")
        }
        _ => false,
    }
}
struct Uses<'x> {
    id: &'x str,
    reads: usize,
    reports: usize,
}
impl<'x> Uses<'x> {
    fn mac(&mut self, m: &Macro) {
        let lit = m.tokens.to_string();
        if dropped_macro(&macro_name(m)) {
            if mentions(&m.tokens, self.id) || lit.contains(&format!("{{{}}}", self.id)) || lit.contains(&format!("{{{}:", self.id)) {
                self.reports += 1;
            }
        } else if mentions(&m.tokens, self.id) || lit.contains(&format!("{{{}", self.id)) {
            self.reads += 1;
        }
    }
}
impl<'a, 'x> Visit<'a> for Uses<'x> {
    fn visit_macro(&mut self, m: &'a Macro) {
        self.mac(m);
    }
    fn visit_stmt(&mut self, s: &'a Stmt) {
        match s {
            Stmt::Expr(Expr::Assign(a), _) if tokstr(&a.left) == self.id && quiet(&a.right) => self.visit_expr(&a.right),
            Stmt::Expr(Expr::Binary(b), _) if tokstr(&b.left) == self.id && is_opassign(&b.op) && quiet(&b.right) => self.visit_expr(&b.right),
            s => visit::visit_stmt(self, s),
        }
    }
    fn visit_expr_path(&mut self, p: &'a ExprPath) {
        if p.path.is_ident(self.id) {
            self.reads += 1;
        }
    }
    fn visit_pat_ident(&mut self, _: &'a PatIdent) {}
}
fn is_opassign(o: &BinOp) -> bool {
    matches!(o, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_))
}
struct DropLocal<'x>(&'x str);
impl<'x> VisitMut for DropLocal<'x> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let id = self.0;
        b.stmts.retain(|s| match s {
            Stmt::Local(l) => {
                let mut v = vec![];
                pat_idents(&l.pat, &mut v);
                !(v.len() == 1 && v[0] == id)
            }
            Stmt::Expr(Expr::Assign(a), _) => tokstr(&a.left) != id,
            Stmt::Expr(Expr::Binary(x), _) => !(is_opassign(&x.op) && tokstr(&x.left) == id),
            _ => true,
        });
    }
}
fn drop_reports(block: &mut Block, notes: &mut Vec<String>) {
    struct L(Vec<(String, bool)>);
    impl<'a> Visit<'a> for L {
        fn visit_local(&mut self, l: &'a Local) {
            let mut p = &l.pat;
            if let Pat::Type(t) = p {
                p = &t.pat;
            }
            if let Pat::Ident(i) = p {
                let ok = match &l.init {
                    Some(x) => x.diverge.is_none() && quiet(&x.expr),
                    None => true,
                };
                self.0.push((i.ident.to_string(), ok));
            }
            visit::visit_local(self, l);
        }
    }
    loop {
        let mut l = L(vec![]);
        l.visit_block(block);
        let mut done = true;
        for (id, _) in &l.0 {
            if l.0.iter().any(|(x, ok)| x == id && !ok) {
                continue;
            }
            let mut u = Uses { id, reads: 0, reports: 0 };
            u.visit_block(block);
            let clock = {
                struct C<'a>(&'a str, bool);
                impl<'a, 'b> Visit<'b> for C<'a> {
                    fn visit_local(&mut self, x: &'b Local) {
                        let mut v = vec![];
                        pat_idents(&x.pat, &mut v);
                        if v.len() == 1 && v[0] == self.0 && tokstr(&x.init.as_ref().map(|i| &i.expr)).contains("Instant") { self.1 = true; }
                        visit::visit_local(self, x);
                    }
                }
                let mut c = C(id, false);
                c.visit_block(block);
                c.1
            };
            if u.reads == 0 && (u.reports > 0 || clock) {
                DropLocal(id).visit_block_mut(block);
                notes.push(format!("dropped local {id}, used only in reports"));
                done = false;
                break;
            }
        }
        if done {
            return;
        }
    }
}

impl<'n> Norm<'n> {
    /// `let mut i = A; while i < B { ...; i += 1; }`  with i otherwise unassigned, B loop-invariant and i dead afterwards
    fn while_to_for(&mut self, stmts: Vec<Stmt>) -> Vec<Stmt> {
        let mut v = stmts;
        let mut k = 0;
        while k < v.len() {
            let repl = (|| {
                let w = match &v[k] {
                    Stmt::Expr(Expr::While(w), _) => w,
                    _ => return None,
                };
                let c = match strip_paren(&w.cond) {
                    Expr::Binary(b) => b,
                    _ => return None,
                };
                let incl = match c.op {
                    BinOp::Lt(_) => false,
                    BinOp::Le(_) => true,
                    _ => return None,
                };
                let id = match &*c.left {
                    Expr::Path(p) => p.path.get_ident()?.clone(),
                    _ => return None,
                };
                let ids = id.to_string();
                let hi = (*c.right).clone();
                if !is_pure(&hi) || mentions(&hi, &ids) {
                    return None;
                }
                let last = w.body.stmts.last()?;
                let inc_ok = match last {
                    Stmt::Expr(Expr::Binary(b), _) => {
                        matches!(b.op, BinOp::AddAssign(_)) && tokstr(&b.left) == ids && tokstr(&b.right) == "1"
                    }
                    Stmt::Expr(Expr::Assign(a), _) => tokstr(&a.left) == ids && tokstr(&a.right).replace(' ', "") == format!("{ids}+1"),
                    _ => false,
                };
                if !inc_ok {
                    return None;
                }
                let mut body = w.body.clone();
                body.stmts.pop();
                let sc = scan_loop(&body);
                if sc.cont || assigned(&body, &ids) {
                    return None;
                }
                // the bound must not change
                let mut roots: Vec<String> = vec![];
                fn ids_of(ts: TokenStream, out: &mut Vec<String>) {
                    for t in ts {
                        match t {
                            TokenTree::Ident(i) => out.push(i.to_string()),
                            TokenTree::Group(g) => ids_of(g.stream(), out),
                            _ => {}
                        }
                    }
                }
                ids_of(hi.to_token_stream(), &mut roots);
                if roots.iter().any(|r| r != "len" && assigned(&body, r)) {
                    return None;
                }
                // dead afterwards
                if v[k + 1..].iter().any(|s| mentions(s, &ids)) {
                    return None;
                }
                // initialisation: nearest preceding `let mut i = A;`, i untouched in between
                let mut j = k;
                let init = loop {
                    if j == 0 {
                        return None;
                    }
                    j -= 1;
                    if let Stmt::Local(l) = &v[j] {
                        let mut ns = vec![];
                        pat_idents(&l.pat, &mut ns);
                        if ns == vec![ids.clone()] {
                            let i = l.init.as_ref()?;
                            break (*i.expr).clone();
                        }
                    }
                    if mentions(&v[j], &ids) {
                        return None;
                    }
                };
                if !is_pure(&init) {
                    return None;
                }
                let label = &w.label;
                let f: Expr = if incl { parse_quote!(#label for #id in (#init)..=(#hi) #body) } else { parse_quote!(#label for #id in (#init)..(#hi) #body) };
                Some((j, f))
            })();
            if let Some((j, f)) = repl {
                self.notes.push("while loop with a counter read as a for loop over the range".into());
                v[k] = Stmt::Expr(f, None);
                v.remove(j);
                k = j;
                continue;
            }
            k += 1;
        }
        v
    }

    /// (a..b).map(|x| E).sum() / .all(|x| E) / .any(|x| E)
    fn iter_chain(&mut self, e: &Expr) -> Option<Expr> {
        let m = match e {
            Expr::MethodCall(m) => m,
            _ => return None,
        };
        let name = m.method.to_string();
        fn closure1(e: &Expr) -> Option<(Pat, Expr)> {
            if let Expr::Closure(c) = e {
                if c.inputs.len() == 1 {
                    let p = match &c.inputs[0] {
                        Pat::Type(t) => (*t.pat).clone(),
                        p => p.clone(),
                    };
                    return Some((p, (*c.body).clone()));
                }
            }
            None
        }
        fn is_range(e: &Expr) -> bool {
            matches!(strip_paren(e), Expr::Range(_))
        }
        // decompose SRC.a().b()...t()
        let mut ad: Vec<&ExprMethodCall> = vec![];
        let mut cur: &Expr = &m.receiver;
        loop {
            match strip_paren(cur) {
                Expr::MethodCall(mm) if matches!(mm.method.to_string().as_str(), "map" | "filter" | "filter_map" | "cloned" | "copied" | "enumerate" | "unique" | "zip" | "skip") => {
                    ad.push(mm);
                    cur = &mm.receiver;
                }
                _ => break,
            }
        }
        ad.reverse();
        let src = strip_paren(cur).clone();
        // iproduct!(A, B): nested loops over the indices of the two lists
        let product: Option<Vec<(Expr, bool)>> = match &src {
            Expr::Macro(m) if macro_name(&m.mac) == "iproduct" => {
                let args = first_arg(&m.mac)?;
                if args.len() != 2 { return None; }
                let mut v = vec![];
                for a in args {
                    let (inner, en) = match strip_paren(&a) { Expr::MethodCall(q) if q.method == "enumerate" && q.args.is_empty() => ((*q.receiver).clone(), true), o => (o.clone(), false) };
                    let inner = match strip_paren(&inner) { Expr::MethodCall(q) if q.method == "iter" && q.args.is_empty() => (*q.receiver).clone(), o if !en => o.clone(), _ => return None };
                    if !matches!(strip_paren(&inner), Expr::Path(_) | Expr::Field(_)) { return None; }
                    v.push((strip_paren(&inner).clone(), en));
                }
                Some(v)
            }
            _ => None,
        };
        let is_src = product.is_some() || is_range(&src) || matches!(&src, Expr::MethodCall(q) if (q.method == "iter" || q.method == "into_iter") && q.args.is_empty());
        if !is_src || !matches!(name.as_str(), "sum" | "collect" | "count" | "min_by" | "for_each" | "next" | "find" | "position" | "any" | "all" | "fold") || (ad.is_empty() && name != "sum" && name != "fold" && name != "min_by" && name != "for_each" && name != "find" && name != "position" && name != "any" && name != "all") {
            return None;
        }
        let f = { self.fresh += 1; self.fresh };
        let id = |n: &str| Ident::new(&format!("vx_{n}{f}"), proc_macro2::Span::call_site());
        let ty: Option<Type> = m.turbofish.as_ref().and_then(|t| match t.args.first() {
            Some(GenericArgument::Type(t)) => Some(t.clone()),
            _ => None,
        });
        let out = if name == "sum" { Ident::new("vx_sum", proc_macro2::Span::call_site()) } else { id("out") };
        let mut pre: Vec<Stmt> = vec![];
        // the loop variable and the chain of steps
        let x0 = id("x");
        let mut first: Pat = parse_quote!(#x0);
        let mut item: Expr = parse_quote!(#x0);
        let mut steps: Vec<(Option<Expr>, Vec<Stmt>)> = vec![];
        let mut n = 0;
        let mut pair: Option<(Ident, Expr)> = None;
        // the parts of the item, where it is known to be a pair of pairs
        let mut tree: Option<Tree> = None;
        if let Some(pr) = &product {
            let t: Vec<Tree> = pr.iter().enumerate().map(|(q, (_, en))| { let (k, x) = (id(&format!("k{q}_")), id(&format!("x{q}_"))); if *en { Tree::Pair(Box::new(Tree::Leaf(parse_quote!(#k))), Box::new(Tree::Leaf(parse_quote!(#x)))) } else { Tree::Leaf(parse_quote!(#x)) } }).collect();
            let t = Tree::Pair(Box::new(t[0].clone()), Box::new(t[1].clone()));
            item = t.expr();
            tree = Some(t);
        }
        for (ai, a) in ad.iter().enumerate() {
            n += 1;
            if !matches!(a.method.to_string().as_str(), "enumerate" | "filter") {
                pair = None;
            }
            let was = tree.clone();
            if a.method != "filter" {
                tree = None;
            }
            match a.method.to_string().as_str() {
                "map" => {
                    let y = id(&format!("m{n}_"));
                    if let Some((p, b)) = closure1(a.args.first()?) {
                        if let Some(t) = &was {
                            let mut lets = vec![];
                            t.bind(&p, false, &mut lets)?;
                            steps.push((None, vec![parse_quote!(let #y = { #(#lets)* #b };)]));
                            item = parse_quote!(#y);
                        } else if ai == 0 {
                            first = p;
                            if ad.len() == 1 && name == "sum" {
                                item = b;
                            } else {
                                steps.push((None, vec![parse_quote!(let #y = #b;)]));
                                item = parse_quote!(#y);
                            }
                        } else {
                            steps.push((None, vec![parse_quote!(let #p = #item;), parse_quote!(let #y = #b;)]));
                            item = parse_quote!(#y);
                        }
                    } else if let Expr::Path(fp) = a.args.first()? {
                        steps.push((None, vec![parse_quote!(let #y = #fp(#item);)]));
                        item = parse_quote!(#y);
                    } else {
                        return None;
                    }
                }
                "filter" => {
                    let (p, b) = closure1(a.args.first()?)?;
                    let c = id(&format!("c{n}_"));
                    if let Some(t) = &tree {
                        let mut lets = vec![];
                        t.bind(&p, true, &mut lets)?;
                        steps.push((Some(parse_quote!(#c)), vec![parse_quote!(let #c = { #(#lets)* #b };)]));
                        continue;
                    }
                    // a pair pattern over the (index, element) pair of a preceding enumerate
                    if let (Pat::Tuple(pt), Some((k, x))) = (&p, &pair) {
                        if pt.elems.len() == 2 {
                            let (p0, p1) = (&pt.elems[0], &pt.elems[1]);
                            steps.push((Some(parse_quote!(#c)), vec![parse_quote!(let #c = { let #p0 = &#k; let #p1 = &#x; #b };)]));
                            continue;
                        }
                    }
                    steps.push((Some(parse_quote!(#c)), vec![parse_quote!(let #c = { let #p = &#item; #b };)]));
                }
                "filter_map" => {
                    let (p, b) = closure1(a.args.first()?)?;
                    let (y, o) = (id(&format!("m{n}_")), id(&format!("o{n}_")));
                    let mut lets: Vec<Stmt> = vec![];
                    match &was { Some(t) => t.bind(&p, false, &mut lets)?, None => lets.push(parse_quote!(let #p = #item;)) }
                    steps.push((Some(parse_quote!(vx_some!(#y, #o))), vec![parse_quote!(let #o = { #(#lets)* #b };)]));
                    item = parse_quote!(#y);
                }
                "skip" => {
                    let k = a.args.first()?;
                    let (y, c) = (id(&format!("c{n}_")), id(&format!("n{n}_")));
                    pre.push(parse_quote!(let mut #c : usize = 0;));
                    steps.push((Some(parse_quote!(#y)), vec![parse_quote!(let #y = #c >= #k;), parse_quote!(#c = #c + 1;)]));
                }
                "cloned" => {
                    let y = id(&format!("m{n}_"));
                    steps.push((None, vec![parse_quote!(let #y = #item.clone();)]));
                    item = parse_quote!(#y);
                }
                "copied" => {
                    let y = id(&format!("m{n}_"));
                    steps.push((None, vec![parse_quote!(let #y = *#item;)]));
                    item = parse_quote!(#y);
                }
                "enumerate" => {
                    let (y, c) = (id(&format!("m{n}_")), id(&format!("n{n}_")));
                    pre.push(parse_quote!(let mut #c : usize = 0;));
                    let k = id(&format!("k{n}_"));
                    pair = Some((k.clone(), item.clone()));
                    steps.push((None, vec![parse_quote!(let #k = #c;), parse_quote!(let #y = (#k, #item);), parse_quote!(#c = #c + 1;)]));
                    item = parse_quote!(#y);
                }
                "zip" => {
                    // the other list: PATH.iter(), .iter().skip(K), .iter().enumerate()
                    let mut o = strip_paren(a.args.first()?).clone();
                    let (mut skip, mut en): (Option<Expr>, bool) = (None, false);
                    loop {
                        match &o {
                            Expr::MethodCall(q) if q.method == "enumerate" && q.args.is_empty() && !en && skip.is_none() => { en = true; o = strip_paren(&q.receiver).clone(); }
                            Expr::MethodCall(q) if q.method == "skip" && q.args.len() == 1 && skip.is_none() => { if !matches!(strip_paren(&q.args[0]), Expr::Lit(_)) { return None; } skip = Some(q.args[0].clone()); o = strip_paren(&q.receiver).clone(); }
                            _ => break,
                        }
                    }
                    let b = match &o {
                        Expr::MethodCall(q) if q.method == "iter" && q.args.is_empty() && matches!(strip_paren(&q.receiver), Expr::Path(_) | Expr::Field(_)) => (*q.receiver).clone(),
                        Expr::MethodCall(q) if q.method == "into_iter" && q.args.is_empty() && self.ref_params.contains(&tokstr(&q.receiver)) => (*q.receiver).clone(),
                        _ => return None,
                    };
                    let (y, c) = (id(&format!("m{n}_")), id(&format!("n{n}_")));
                    pre.push(parse_quote!(let mut #c : usize = 0;));
                    match &skip {
                        // never beyond the end of the list: compared without adding
                        Some(k) => steps.push((Some(parse_quote!(#b.len() > #k && #c < #b.len() - #k)), vec![])),
                        None => steps.push((Some(parse_quote!(#c < #b.len())), vec![])),
                    }
                    let at: Expr = match &skip { Some(k) => parse_quote!(#c + #k), None => parse_quote!(#c) };
                    let other: Expr = if en { parse_quote!((#c, &#b[#at])) } else { parse_quote!(&#b[#at]) };
                    steps.push((None, vec![parse_quote!(let #y = (#item, #other);), parse_quote!(#c = #c + 1;)]));
                    item = parse_quote!(#y);
                }
                "unique" => {
                    let (c, t) = (id(&format!("c{n}_")), id(&format!("seen{n}_")));
                    pre.push(parse_quote!(let mut #t = HashSet::new();));
                    steps.push((Some(parse_quote!(#c)), vec![parse_quote!(let #c = #t.insert(#item.clone());)]));
                }
                _ => return None,
            }
        }
        let set = self.collect_set || ty.as_ref().map_or(false, |t| tokstr(t).contains("HashSet"));
        let mut fin: Expr = parse_quote!(#out);
        let mut body: Vec<Stmt> = match name.as_str() {
            "sum" => {
                pre.push(match ty { Some(t) => parse_quote!(let mut #out : #t = 0;), None => parse_quote!(let mut #out = 0;) });
                vec![parse_quote!(#out += #item;)]
            }
            "count" => {
                pre.push(parse_quote!(let mut #out : usize = 0;));
                vec![parse_quote!(#out = #out + 1;)]
            }
            "collect" if set => {
                pre.push(parse_quote!(let mut #out = HashSet::new();));
                vec![parse_quote!(#out.insert(#item);)]
            }
            "collect" => {
                pre.push(parse_quote!(let mut #out = Vec::new();));
                vec![parse_quote!(#out.push(#item);)]
            }
            "next" | "find" => {
                pre.push(parse_quote!(let mut #out = None;));
                if name == "find" {
                    let (p, b) = closure1(m.args.first()?)?;
                    vec![parse_quote!(if #out.is_none() { let vx_c = { let #p = &#item; #b }; if vx_c { #out = Some(#item); } })]
                } else {
                    vec![parse_quote!(if #out.is_none() { #out = Some(#item); })]
                }
            }
            "position" => {
                let (p, b) = closure1(m.args.first()?)?;
                let c = id("pos");
                pre.push(parse_quote!(let mut #out : Option<usize> = None;));
                pre.push(parse_quote!(let mut #c : usize = 0;));
                vec![parse_quote!(if #out.is_none() { let vx_c = { let #p = #item; #b }; if vx_c { #out = Some(#c); } #c = #c + 1; })]
            }
            "any" => {
                let (p, b) = closure1(m.args.first()?)?;
                pre.push(parse_quote!(let mut #out = false;));
                vec![parse_quote!(if !#out { let #p = #item; if #b { #out = true; } })]
            }
            "all" => {
                let (p, b) = closure1(m.args.first()?)?;
                pre.push(parse_quote!(let mut #out = true;));
                vec![parse_quote!(if #out { let #p = #item; if !(#b) { #out = false; } })]
            }
            "fold" => {
                let init = m.args.first()?;
                let c = match m.args.iter().nth(1)? { Expr::Closure(c) if c.inputs.len() == 2 => c, _ => return None };
                let (p, q, b) = (&c.inputs[0], &c.inputs[1], &c.body);
                pre.push(parse_quote!(let mut #out = #init;));
                vec![parse_quote!(let #p = #out;), parse_quote!(let #q = #item;), parse_quote!(#out = #b;)]
            }
            "for_each" => {
                let (p, b) = closure1(m.args.first()?)?;
                fin = parse_quote!(());
                vec![parse_quote!(let #p = #item;), parse_quote!(#b;)]
            }
            "min_by" => {
                if let Expr::Closure(c) = m.args.first()? {
                    if c.inputs.len() != 2 { return None; }
                    let (p, q, b) = (&c.inputs[0], &c.inputs[1], &c.body);
                    pre.push(parse_quote!(let mut #out = None;));
                    let (bb, o) = (id("best"), id("ord"));
                    vec![parse_quote!(match #out {
                        None => { #out = Some(#item); }
                        Some(#bb) => {
                            let #o = { let #p = &#bb; let #q = &#item; #b };
                            if let std::cmp::Ordering::Greater = #o { #out = Some(#item); }
                        }
                    })]
                } else { return None; }
            }
            _ => return None,
        };
        for (c, st) in steps.into_iter().rev() {
            if let Some(c) = c {
                body = match &c {
                    Expr::Macro(m) if m.mac.path.is_ident("vx_some") => {
                        let a = first_arg(&m.mac)?;
                        let (y, o) = (&a[0], &a[1]);
                        vec![parse_quote!(match #o { Some(#y) => { #(#body)* } None => {} })]
                    }
                    _ => vec![parse_quote!(if #c { #(#body)* })],
                };
            }
            let mut v = st;
            v.extend(body);
            body = v;
        }
        self.notes.push(format!("iterator chain ending in {name}() read as a for loop"));
        if let Some(pr) = &product {
            let (a, b) = (&pr[0].0, &pr[1].0);
            let (k0, k1, y0, y1) = (id("k0_"), id("k1_"), id("x0_"), id("x1_"));
            return Some(parse_quote!({ #(#pre)* for #k0 in 0..#a.len() { let #y0 = &#a[#k0]; for #k1 in 0..#b.len() { let #y1 = &#b[#k1]; #(#body)* } } #fin }));
        }
        let ts = tokstr(&first).replace(' ', "");
        if ts.starts_with('&') && syn::parse_str::<Ident>(&ts[1..]).is_ok() {
            let x = syn::parse_str::<Ident>(&ts[1..]).ok()?;
            let v = id("r_");
            return Some(parse_quote!({ #(#pre)* for #v in #src { let #x = *#v; #(#body)* } #fin }));
        }
        Some(parse_quote!({ #(#pre)* for #first in #src { #(#body)* } #fin }))
    }
}

// ---- functions returning `impl Iterator<Item = T>`: read as functions returning the list of what the iterator yields

/// a closure body `for P in E { if C { return A; } } B`, or with statements around it, without the return
fn closure_unreturn(e: &mut Expr) -> bool {
    let b = match e { Expr::Block(b) => &mut b.block, _ => return !HasReturnExpr::of(e) };
    if !has_return_block(b) { return true; }
    let n = b.stmts.len();
    if n < 2 { return false; }
    let (st, tail) = (b.stmts[n - 2].clone(), match &b.stmts[n - 1] { Stmt::Expr(t, None) => t.clone(), _ => return false });
    if b.stmts[..n - 2].iter().any(has_return_stmt) || HasReturnExpr::of(&tail) { return false; }
    let f = match &st { Stmt::Expr(Expr::ForLoop(f), _) if f.label.is_none() => f.clone(), _ => return false };
    if f.body.stmts.len() != 1 { return false; }
    let i = match &f.body.stmts[0] { Stmt::Expr(Expr::If(i), _) if i.else_branch.is_none() && i.then_branch.stmts.len() == 1 => i.clone(), _ => return false };
    let r = match &i.then_branch.stmts[0] { Stmt::Expr(Expr::Return(r), _) => match &r.expr { Some(x) => (**x).clone(), None => return false }, _ => return false };
    if !is_pure(&r) && !matches!(r, Expr::Lit(_)) { return false; }
    let (pat, src, c) = (&f.pat, &f.expr, &i.cond);
    b.stmts.truncate(n - 2);
    b.stmts.push(parse_quote!(let mut vx_hit = false;));
    b.stmts.push(Stmt::Expr(parse_quote!(for #pat in #src { if !vx_hit { if #c { vx_hit = true; } } }), None));
    b.stmts.push(Stmt::Expr(parse_quote!(if vx_hit { #r } else { #tail }), None));
    true
}
struct HasReturnExpr;
impl HasReturnExpr { fn of(e: &Expr) -> bool { let mut h = HasReturn(false); h.visit_expr(e); h.0 } }
fn iterator_fn(sig: &mut Signature, block: &mut Block, notes: &mut Vec<String>) {
    let item: Type = match &sig.output {
        ReturnType::Type(_, t) => match &**t {
            Type::ImplTrait(i) => {
                let hit = i.bounds.iter().find_map(|b| match b {
                    syn::TypeParamBound::Trait(t) => { let l = t.path.segments.last()?; if l.ident != "Iterator" { return None; }
                        match &l.arguments { PathArguments::AngleBracketed(a) => a.args.iter().find_map(|x| match x { GenericArgument::AssocType(x) if x.ident == "Item" => Some(x.ty.clone()), _ => None }), _ => None } }
                    _ => None });
                match hit { Some(t) => t, None => return }
            }
            _ => return,
        },
        _ => return,
    };
    sig.output = parse_quote!(-> Vec<#item>);
    let tail = match block.stmts.last_mut() { Some(Stmt::Expr(e, None)) => e, _ => return };
    let mut e = tail.clone();
    // the adapters' closures
    { let mut cur: &mut Expr = &mut e;
      loop { match cur { Expr::MethodCall(m) => { for a in m.args.iter_mut() { if let Expr::Closure(c) = a { closure_unreturn(&mut c.body); } } cur = &mut m.receiver; } _ => break } } }
    let n = block.stmts.len();
    // a local that holds the beginning of the chain
    if n >= 2 {
        if let Stmt::Local(l) = &block.stmts[n - 2] {
            if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                let id = i.ident.clone();
                let ex = (*init.expr).clone();
                let mut cur: &mut Expr = &mut e;
                let mut done = false;
                loop { match cur { Expr::MethodCall(m) => { if m.args.iter().any(|a| mentions(a, &id.to_string())) { break; } cur = &mut m.receiver; } Expr::Path(p) if p.path.is_ident(&id) => { *cur = ex; done = true; break; } _ => break } }
                if done { block.stmts.remove(n - 2); }
            }
        }
    }
    let k = block.stmts.len();
    block.stmts[k - 1] = Stmt::Expr(parse_quote!(#e.collect()), None);
    notes.push("function returning an iterator read as returning the list of its elements".into());
}

// ---- texts: `+`, `+=`, push_str and to_string read as calls of the stand-in type for String

struct TextPass<'n> { notes: &'n mut Vec<String> }
fn is_text(e: &Expr) -> bool {
    match strip_paren(e) {
        Expr::Lit(l) => matches!(l.lit, syn::Lit::Str(_)),
        Expr::Reference(_) => true,
        Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "to_string" | "to_owned" | "vx_to_string" | "vx_cat"),
        Expr::Call(c) => tokstr(&c.func) == "vx_text",
        _ => false,
    }
}
/// the texts a pattern lists
fn text_pat(p: &Pat, out: &mut Vec<Expr>) -> bool {
    match p {
        Pat::Lit(l) if matches!(l.lit, syn::Lit::Str(_)) => { let l = &l.lit; out.push(parse_quote!(#l)); true }
        Pat::Or(o) => o.cases.iter().all(|c| text_pat(c, out)),
        Pat::Paren(q) => text_pat(&q.pat, out),
        _ => false,
    }
}
/// `match x { "a" => A, "b" => B, _ => C }` as `if x.vx_is("a") { A } else if x.vx_is("b") { B } else { C }`
fn text_match(m: &syn::ExprMatch) -> Option<Expr> {
    let x = strip_paren(&m.expr);
    if !matches!(x, Expr::Path(_)) { return None; }
    let n = m.arms.len();
    if n < 2 || m.arms.iter().any(|a| a.guard.is_some()) || !matches!(m.arms[n - 1].pat, Pat::Wild(_)) { return None; }
    let last = &m.arms[n - 1].body;
    let mut r: Expr = parse_quote!({ #last });
    for a in m.arms[..n - 1].iter().rev() {
        let mut t = vec![];
        if !text_pat(&a.pat, &mut t) { return None; }
        let mut c: Option<Expr> = None;
        for l in t { c = Some(match c { None => parse_quote!(#x.vx_is(#l)), Some(d) => parse_quote!(#d || #x.vx_is(#l)) }); }
        let (c, b) = (c?, &a.body);
        let b: Block = match &**b { Expr::Block(k) if k.label.is_none() => k.block.clone(), b => parse_quote!({ #b }) };
        r = parse_quote!(if #c #b else #r);
    }
    Some(r)
}
impl<'n> VisitMut for TextPass<'n> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Match(m) = &*e {
            if let Some(n) = text_match(m) {
                *e = n;
                let t = "match on texts read as a chain of if".to_string();
                if !self.notes.contains(&t) { self.notes.push(t); }
            }
        }
        let new: Option<Expr> = match &*e {
            Expr::Binary(b) if matches!(b.op, BinOp::Add(_)) && (is_text(&b.left) || is_text(&b.right)) => {
                let (l, r) = (&b.left, &b.right);
                Some(parse_quote!(#l.vx_cat(#r)))
            }
            Expr::Binary(b) if matches!(b.op, BinOp::AddAssign(_)) && is_text(&b.right) && matches!(&*b.left, Expr::Path(_)) => {
                let (l, r) = (&b.left, &b.right);
                Some(parse_quote!(#l = #l.vx_cat(#r)))
            }
            Expr::MethodCall(m) if m.method == "push_str" && m.args.len() == 1 && matches!(&*m.receiver, Expr::Path(_)) => {
                let (l, r) = (&m.receiver, m.args.first().unwrap());
                Some(parse_quote!(#l = #l.vx_cat(#r)))
            }
            Expr::MethodCall(m) if (m.method == "to_string" || m.method == "to_owned") && m.args.is_empty() => {
                let r = &m.receiver;
                if matches!(strip_paren(r), Expr::Lit(l) if matches!(l.lit, syn::Lit::Str(_))) { Some(parse_quote!(vx_text(#r))) } else { Some(parse_quote!(#r.vx_to_string())) }
            }
            Expr::Call(c) if tokstr(&c.func) == "String :: new" && c.args.is_empty() => Some(parse_quote!(vx_text(""))),
            Expr::Call(c) if tokstr(&c.func) == "String :: from" && c.args.len() == 1 => { let r = c.args.first().unwrap(); Some(parse_quote!(vx_text(#r))) }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
            let t = "texts: +, +=, push_str, to_string read as calls of the stand-in type for String".to_string();
            if !self.notes.contains(&t) { self.notes.push(t); }
        }
    }
}

// ---- loop marking and local collection

struct Marker {
    ifs: usize,
    loops: Vec<Value>,
    locals: Vec<String>,
    keep: BTreeSet<usize>,
}
impl Marker {
    fn mark(&mut self, kind: &str, head: String) -> usize {
        let k = self.loops.len();
        self.loops.push(json!({"kind": kind, "head": head}));
        k
    }
}
fn mk(s: String) -> Stmt {
    parse_quote!(__vx!(#s);)
}
fn decorate(b: &mut Block, k: usize) {
    b.stmts.insert(0, mk(format!("L{k}")));
    b.stmts.insert(1, mk(format!("L{k}s")));
    // make sure the last statement of a loop body is terminated, then add the end marker
    if let Some(Stmt::Expr(_, semi)) = b.stmts.last_mut() {
        if semi.is_none() {
            *semi = Some(Default::default());
        }
    }
    b.stmts.push(mk(format!("L{k}e")));
}
impl VisitMut for Marker {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        // the end of the then-branch of an `if` in statement position
        if let Stmt::Expr(Expr::If(_), _) = s {
            let k = self.ifs;
            self.ifs += 1;
            visit_mut::visit_stmt_mut(self, s);
            if let Stmt::Expr(Expr::If(f), _) = s {
                if matches!(f.then_branch.stmts.last(), Some(Stmt::Local(_)) | Some(Stmt::Expr(_, Some(_)))) && !matches!(f.then_branch.stmts.last(), Some(x) if is_jump(x)) {
                    f.then_branch.stmts.push(mk(format!("I{k}e")));
                }
            }
        } else {
            visit_mut::visit_stmt_mut(self, s);
        }
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        let mut v = vec![];
        pat_idents(&l.pat, &mut v);
        self.locals.extend(v);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // visit statements; after a statement that is a loop, add an "after" marker
        let mut out = vec![];
        for mut s in b.stmts.drain(..) {
            let is_loop = matches!(&s, Stmt::Expr(Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_), _));
            let k = self.loops.len();
            if is_loop {
                out.push(mk(format!("L{k}b")));
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
            if is_loop {
                out.push(mk(format!("L{k}a")));
            }
        }
        // a loop in tail position keeps its type ()
        b.stmts = out;
    }
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        let kind = match strip_paren(&f.expr) {
            Expr::Range(_) => "for-range",
            Expr::Array(_) => "for-array",
            _ => "for-iter",
        };
        let k = self.mark(kind, format!("{} in {}", tokstr(&f.pat), tokstr(&f.expr)));
        let mut v = vec![];
        pat_idents(&f.pat, &mut v);
        self.locals.extend(v);
        visit_mut::visit_expr_for_loop_mut(self, f);
        decorate(&mut f.body, k);
        if kind == "for-iter" && !matches!(strip_paren(&f.expr), Expr::Macro(_)) {
            let id = Ident::new(&format!("__vx_it{k}"), proc_macro2::Span::call_site());
            let e = &f.expr;
            *f.expr = parse_quote!(#id(#e));
        }
    }
    fn visit_expr_while_mut(&mut self, f: &mut ExprWhile) {
        let k = self.mark("while", tokstr(&f.cond));
        visit_mut::visit_expr_while_mut(self, f);
        decorate(&mut f.body, k);
    }
    fn visit_expr_loop_mut(&mut self, f: &mut ExprLoop) {
        let k = self.mark("loop", String::new());
        visit_mut::visit_expr_loop_mut(self, f);
        decorate(&mut f.body, k);
    }
}

// ---- `continue` in for loops (the verifier has none): the rest of the body moves into the branch that goes on
struct HasCont(bool);
impl<'a> Visit<'a> for HasCont {
    fn visit_expr_continue(&mut self, c: &'a ExprContinue) {
        let _ = c;
        self.0 = true;
    }
    fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
    fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
    fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
fn has_cont(s: &Stmt) -> bool {
    let mut h = HasCont(false);
    h.visit_stmt(s);
    h.0
}
fn is_jump(s: &Stmt) -> bool {
    matches!(s, Stmt::Expr(Expr::Continue(_) | Expr::Break(_) | Expr::Return(_), _))
}
fn ends_in_jump(b: &Block) -> bool {
    b.stmts.last().map_or(false, is_jump)
}
fn uncont(mut st: Vec<Stmt>) -> Option<Vec<Stmt>> {
    let i = match st.iter().position(has_cont) {
        None => return Some(st),
        Some(i) => i,
    };
    let rest: Vec<Stmt> = st.split_off(i + 1);
    let cur = st.pop().unwrap();
    let blk = |v: Vec<Stmt>| Block { brace_token: Default::default(), stmts: v };
    let join = |b: &Block, go: bool| -> Option<Vec<Stmt>> {
        let mut v = b.stmts.clone();
        if go {
            if let Some(Stmt::Expr(_, semi)) = v.last_mut() {
                if semi.is_none() { *semi = Some(Default::default()); }
            }
            v.extend(rest.clone());
        }
        uncont(v)
    };
    match cur {
        Stmt::Expr(Expr::Continue(c), _) if c.label.is_none() => Some(st),
        Stmt::Expr(Expr::If(mut f), semi) => {
            let a_stop = ends_in_jump(&f.then_branch);
            let els: Block = match &f.else_branch {
                None => blk(vec![]),
                Some((_, e)) => match &**e {
                    Expr::Block(b) => b.block.clone(),
                    other => blk(vec![Stmt::Expr(other.clone(), None)]),
                },
            };
            let b_stop = ends_in_jump(&els);
            if !a_stop && !b_stop && !rest.is_empty() && !(f.else_branch.is_some() && false) {
                return None;
            }
            f.then_branch = blk(join(&f.then_branch, !a_stop)?);
            let e2 = blk(join(&els, !b_stop)?);
            f.else_branch = if e2.stmts.is_empty() { None } else { Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: e2 })))) };
            st.push(Stmt::Expr(Expr::If(f), semi));
            Some(st)
        }
        Stmt::Expr(Expr::Match(mut m), semi) => {
            let go: Vec<bool> = m.arms.iter().map(|a| match &*a.body {
                Expr::Continue(_) | Expr::Break(_) | Expr::Return(_) => false,
                Expr::Block(b) => !ends_in_jump(&b.block),
                _ => true,
            }).collect();
            if go.iter().filter(|x| **x).count() > 1 && !rest.is_empty() {
                return None;
            }
            for (a, g) in m.arms.iter_mut().zip(go) {
                let b = match &*a.body {
                    Expr::Block(b) => b.block.clone(),
                    e => blk(vec![Stmt::Expr(e.clone(), Some(Default::default()))]),
                };
                *a.body = Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk(join(&b, g)?) });
            }
            st.push(Stmt::Expr(Expr::Match(m), semi));
            Some(st)
        }
        Stmt::Local(l) => {
            // let PAT = E else { ..continue };
            let init = l.init.as_ref()?;
            let (_, d) = init.diverge.as_ref()?;
            let d = match &**d { Expr::Block(b) => b.block.clone(), _ => return None };
            let d2 = blk(uncont(d.stmts)?);
            let r2 = blk(uncont(rest.clone())?);
            let (pat, e) = (&l.pat, &init.expr);
            let s: Expr = if d2.stmts.is_empty() { parse_quote!(if let #pat = #e #r2) } else { parse_quote!(if let #pat = #e #r2 else #d2) };
            st.push(Stmt::Expr(s, Some(Default::default())));
            Some(st)
        }
        _ => None,
    }
}
/// where the rest would have to be duplicated: `continue` sets a flag that guards everything after it
fn flagcont(st: Vec<Stmt>) -> Option<Vec<Stmt>> {
    let i = match st.iter().position(has_cont) {
        None => return Some(st),
        Some(i) => i,
    };
    let mut st = st;
    let rest: Vec<Stmt> = st.split_off(i + 1);
    let cur = st.pop().unwrap();
    fn inner(e: &mut Expr) -> Option<()> {
        match e {
            Expr::Continue(c) if c.label.is_none() => { *e = parse_quote!({ vx_go = false; }); }
            Expr::Block(b) => { b.block.stmts = flagcont(b.block.stmts.clone())?; }
            Expr::If(f) => {
                f.then_branch.stmts = flagcont(f.then_branch.stmts.clone())?;
                if let Some((_, x)) = &mut f.else_branch { inner(x)?; }
            }
            Expr::Match(m) => { for a in m.arms.iter_mut() { inner(&mut a.body)?; } }
            other => { let mut h = HasCont(false); h.visit_expr(other); if h.0 { return None; } }
        }
        Some(())
    }
    match cur {
        Stmt::Expr(Expr::Continue(c), _) if c.label.is_none() => { st.push(parse_quote!(vx_go = false;)); }
        Stmt::Expr(mut e, _) => {
            inner(&mut e)?;
            st.push(Stmt::Expr(e, Some(Default::default())));
            let mut r = flagcont(rest)?;
            if let Some(Stmt::Expr(_, semi)) = r.last_mut() { if semi.is_none() { *semi = Some(Default::default()); } }
            if !r.is_empty() { st.push(Stmt::Expr(parse_quote!(if vx_go { #(#r)* }), Some(Default::default()))); }
        }
        _ => return None,
    }
    Some(st)
}
struct Uncont<'n> {
    notes: &'n mut Vec<String>,
}
impl<'n> VisitMut for Uncont<'n> {
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        if f.body.stmts.iter().any(has_cont) {
            if let Some(v) = uncont(f.body.stmts.clone()) {
                f.body.stmts = v;
                self.notes.push("continue in a for loop: the rest of the body moved into the branch that goes on".into());
            } else if let Some(v) = flagcont(f.body.stmts.clone()) {
                f.body.stmts = v;
                f.body.stmts.insert(0, parse_quote!(let mut vx_go = true;));
                self.notes.push("continue in a for loop: a flag that guards the rest of the body".into());
            }
        }
        visit_mut::visit_expr_for_loop_mut(self, f);
    }
}

// ---- loops over array literals

struct Unroll<'n> {
    notes: &'n mut Vec<String>,
    scopes: Vec<HashMap<String, ExprArray>>,
    fresh: usize,
    max: usize,
}
fn array_of(e: &Expr, scopes: &[HashMap<String, ExprArray>]) -> Option<ExprArray> {
    match strip_paren(e) {
        Expr::Call(c) if tokstr(&c.func).starts_with("__vx_it") && c.args.len() == 1 => array_of(&c.args[0], scopes),
        Expr::Array(a) => Some(a.clone()),
        Expr::Path(p) => {
            let id = p.path.get_ident()?.to_string();
            scopes.iter().rev().find_map(|s| s.get(&id).cloned())
        }
        Expr::MethodCall(m) if m.method == "clone" && m.args.is_empty() => array_of(&m.receiver, scopes),
        _ => None,
    }
}
impl<'n> VisitMut for Unroll<'n> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.scopes.push(HashMap::new());
        let mut out = vec![];
        for mut s in b.stmts.drain(..) {
            if let Stmt::Local(l) = &s {
                if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
                    if p.mutability.is_none() {
                        if let Expr::Array(a) = &*i.expr {
                            if a.elems.iter().all(is_pure) {
                                self.scopes.last_mut().unwrap().insert(p.ident.to_string(), a.clone());
                            }
                        }
                    }
                }
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
        }
        b.stmts = out;
        self.scopes.pop();
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::ForLoop(f) = e {
            // iproduct!(A, B) over array literals: nested loops
            if let Expr::Macro(m) = strip_paren(&f.expr) {
                if macro_name(&m.mac) == "iproduct" {
                    if let (Some(args), Pat::Tuple(pt)) = (first_arg(&m.mac), &*f.pat) {
                        if args.len() == 2 && pt.elems.len() == 2 {
                            let (a, b, p, q) = (&args[0], &args[1], &pt.elems[0], &pt.elems[1]);
                            let body = &f.body;
                            self.notes.push("iproduct! over two arrays read as nested loops".into());
                            let n: Expr = parse_quote!(for #p in #a { for #q in #b #body });
                            *e = n;
                            self.visit_expr_mut(e);
                            return;
                        }
                    }
                }
            }
            if let Some(a) = array_of(&f.expr, &self.scopes) {
                let sc = scan_loop(&f.body);
                let n = a.elems.len();
                let pat = &f.pat;
                let mut body = f.body.clone();
                if !sc.cont && !sc.brk && n <= self.max && f.label.is_none() {
                    self.visit_block_mut(&mut body);
                    // drop the loop-head marker of an unrolled loop
                    body.stmts.retain(|s| !is_marker(s, |m| m.starts_with('L') && m[1..].chars().all(|c| c.is_ascii_digit())));
                    self.notes.push(format!("loop over an array literal of {n} elements unrolled"));
                    let els = a.elems.iter();
                    *e = parse_quote!({ #( { let #pat = #els; #body } )* });
                } else {
                    self.visit_block_mut(&mut body);
                    self.fresh += 1;
                    let ix = Ident::new(&format!("vx_ix{}", self.fresh), proc_macro2::Span::call_site());
                    let ar = Ident::new(&format!("vx_arr{}", self.fresh), proc_macro2::Span::call_site());
                    let label = &f.label;
                    // the head marker must stay first in the body
                    let head: Vec<Stmt> = body.stmts.iter().take(1).cloned().collect();
                    let rest: Vec<Stmt> = body.stmts.iter().skip(1).cloned().collect();
                    let is_m = head.first().map_or(false, |s| is_marker(s, |_| true));
                    let (head, rest) = if is_m { (head, rest) } else { (vec![], body.stmts.clone()) };
                    self.notes.push("loop over an array literal read as an indexed while loop".into());
                    *e = parse_quote!({ let #ar = #a; let mut #ix : usize = 0; #label while #ix < #n { #(#head)* let #pat = #ar[#ix]; #ix = #ix + 1; #(#rest)* } });
                }
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn is_marker(s: &Stmt, f: impl Fn(&str) -> bool) -> bool {
    if let Stmt::Macro(m) = s {
        if macro_name(&m.mac) == "__vx" {
            if let Ok(l) = m.mac.parse_body::<LitStr>() {
                return f(&l.value());
            }
        }
    }
    false
}

// ---------------------------------------------------------------- requests

fn contains_unsupported(ts: &TokenStream) -> Vec<String> {
    let mut v = vec![];
    fn go(ts: TokenStream, v: &mut Vec<String>) {
        let t: Vec<TokenTree> = ts.into_iter().collect();
        for i in 0..t.len() {
            if let TokenTree::Group(g) = &t[i] {
                go(g.stream(), v)
            }
            if let TokenTree::Ident(id) = &t[i] {
                if *id == "unsafe" {
                    v.push("unsafe".into())
                }
            }
        }
    }
    go(ts.clone(), &mut v);
    v
}

/// `let f = match e { p => closure, .. }` (and `let f = closure`): f becomes the number of the chosen closure and every
/// call f(args) becomes the bodies of the closures, chosen by that number
struct FnChoice<'a> { notes: &'a mut Vec<String> }
enum FnArm { Closure(syn::ExprClosure), Other }
fn peel_fn(e: &Expr) -> Option<FnArm> {
    match e {
        Expr::Closure(c) => Some(FnArm::Closure(c.clone())),
        Expr::Paren(p) => peel_fn(&p.expr),
        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(e, None) => peel_fn(e),
            Stmt::Macro(m) if m.mac.path.is_ident("panic") || m.mac.path.is_ident("unreachable") => Some(FnArm::Other),
            Stmt::Expr(Expr::Macro(m), _) if m.mac.path.is_ident("panic") || m.mac.path.is_ident("unreachable") => Some(FnArm::Other),
            _ => None,
        },
        Expr::Macro(m) if m.mac.path.is_ident("panic") || m.mac.path.is_ident("unreachable") => Some(FnArm::Other),
        Expr::Call(c) if c.args.len() == 1 && tokstr(&c.func).replace(' ', "") == "Box::new" => match peel_fn(&c.args[0]) { Some(FnArm::Closure(c)) => Some(FnArm::Closure(c)), _ => None },
        _ => None,
    }
}
fn simple_closure(c: &syn::ExprClosure) -> bool {
    struct R(bool);
    impl<'b> Visit<'b> for R {
        fn visit_expr_return(&mut self, _: &'b syn::ExprReturn) { self.0 = true; }
        fn visit_expr_try(&mut self, _: &'b syn::ExprTry) { self.0 = true; }
        fn visit_expr_closure(&mut self, _: &'b syn::ExprClosure) { }
    }
    let mut r = R(false);
    r.visit_expr(&c.body);
    !r.0
}
struct FnUses { name: Ident, total: usize, calls: usize }
impl<'b> Visit<'b> for FnUses {
    fn visit_expr_call(&mut self, c: &'b syn::ExprCall) {
        if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(&self.name)) { self.calls += 1; }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_path(&mut self, p: &'b syn::ExprPath) { if p.path.is_ident(&self.name) { self.total += 1; } }
    fn visit_macro(&mut self, m: &'b syn::Macro) { if m.tokens.to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == self.name.to_string()) { self.total += 1; } }
}
struct FnCalls { name: Ident, arms: Vec<syn::ExprClosure>, single: bool }
impl VisitMut for FnCalls {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(&self.name)) {
                let name = &self.name;
                let mut out: Option<Expr> = None;
                for (i, a) in self.arms.iter().enumerate().rev() {
                    let pats: Vec<Pat> = a.inputs.iter().map(|p| match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() }).collect();
                    let args: Vec<Expr> = c.args.iter().cloned().collect();
                    if pats.len() != args.len() { return; }
                    let body = &a.body;
                    let b: syn::Block = if pats.is_empty() { parse_quote!({ #body }) } else if pats.len() == 1 { let (p, x) = (&pats[0], &args[0]); parse_quote!({ let #p = #x; #body }) } else { parse_quote!({ let (#(#pats),*) = (#(#args),*); #body }) };
                    out = Some(match out {
                        None => Expr::Block(parse_quote!(#b)),
                        Some(rest) => { let k = i as i32; let k = syn::LitInt::new(&format!("{k}i32"), proc_macro2::Span::call_site()); parse_quote!(if #name == #k #b else { #rest }) }
                    });
                }
                if let Some(o) = out { *e = o; }
            }
        }
    }
}
impl<'a> VisitMut for FnChoice<'a> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            let mut found: Option<(Ident, Vec<syn::ExprClosure>, Option<Expr>)> = None;
            if let Stmt::Local(l) = &b.stmts[i] {
                let mut ids = vec![];
                pat_idents(&l.pat, &mut ids);
                let simple = match &l.pat { Pat::Ident(p) => p.mutability.is_none(), Pat::Type(t) => matches!(&*t.pat, Pat::Ident(p) if p.mutability.is_none()), _ => false };
                if let (true, 1, Some(init)) = (simple, ids.len(), l.init.as_ref()) {
                    let name = Ident::new(&ids[0], proc_macro2::Span::call_site());
                    match &*init.expr {
                        Expr::Closure(c) if simple_closure(c) => found = Some((name, vec![c.clone()], None)),
                        Expr::Match(m) => {
                            let arms: Vec<Option<FnArm>> = m.arms.iter().map(|a| peel_fn(&a.body)).collect();
                            if arms.iter().all(|a| a.is_some()) && arms.iter().any(|a| matches!(a, Some(FnArm::Closure(_)))) {
                                let mut cl = vec![];
                                let mut m2 = m.clone();
                                for (a, x) in m2.arms.iter_mut().zip(arms.into_iter()) {
                                    if let Some(FnArm::Closure(c)) = x {
                                        let k = syn::LitInt::new(&format!("{}i32", cl.len()), proc_macro2::Span::call_site());
                                        *a.body = parse_quote!({ #k });
                                        a.comma = Some(Default::default());
                                        cl.push(c);
                                    }
                                }
                                if cl.iter().all(simple_closure) { found = Some((name, cl, Some(Expr::Match(m2)))); }
                            }
                        }
                        _ => {}
                    }
                }
            }
            if let Some((name, arms, choice)) = found {
                let mut u = FnUses { name: name.clone(), total: 0, calls: 0 };
                for s in &b.stmts[i + 1..] { u.visit_stmt(s); }
                if u.calls > 0 && u.calls == u.total {
                    self.notes.push(format!("calls of the local closure {name} replaced by its body"));
                    let mut f = FnCalls { name: name.clone(), single: choice.is_none(), arms };
                    let _ = f.single;
                    for s in b.stmts[i + 1..].iter_mut() { f.visit_stmt_mut(s); }
                    match choice {
                        Some(m) => b.stmts[i] = parse_quote!(let #name : i32 = #m;),
                        None => { b.stmts.remove(i); continue; }
                    }
                }
            }
            i += 1;
        }
        syn::visit_mut::visit_block_mut(self, b);
    }
}

/// in the type of a static an elided lifetime is 'static
struct StaticLifetime;
impl VisitMut for StaticLifetime {
    fn visit_type_reference_mut(&mut self, t: &mut syn::TypeReference) {
        if t.lifetime.is_none() { t.lifetime = Some(parse_quote!('static)); }
        syn::visit_mut::visit_type_reference_mut(self, t);
    }
}

fn do_fn(krate: &Crate, req: &Value, known: &BTreeSet<String>) -> Value {
    let file = req["file"].as_str().unwrap();
    let path = req["path"].as_str().unwrap();
    let (mut sig, mut block, self_ty);
    if req["kind"] == "static_init" {
        match find_static(krate, file, path) {
            Some((mut ty, e)) => {
                StaticLifetime.visit_type_mut(&mut ty);
                let name = Ident::new(&format!("vx_init_{path}"), proc_macro2::Span::call_site());
                sig = parse_quote!(fn #name() -> #ty);
                block = match e {
                    Expr::Block(b) => b.block,
                    e => parse_quote!({ #e }),
                };
                self_ty = None;
            }
            None => return json!({"ok": false, "error": format!("static {path} not found in {file}")}),
        }
    } else {
        let c: Vec<&FnInfo> = krate.fns.iter().filter(|f| f.path == path && (f.file == file)).collect();
        let c: Vec<&FnInfo> = if c.is_empty() { krate.fns.iter().filter(|f| f.path == path).collect() } else { c };
        if c.len() != 1 {
            return json!({"ok": false, "error": format!("{} definitions of {path} in {file}", c.len())});
        }
        sig = c[0].sig.clone();
        block = c[0].block.clone();
        self_ty = if path.contains("::") { Some(path.split("::").next().unwrap().to_string()) } else { None };
    }
    let orig_lines = block.to_token_stream().to_string().len();
    let mut cx = Ctx {
        krate,
        file: file.to_string(),
        known,
        notes: vec![],
        inlined: vec![],
        depth: 0,
        fresh: 0,
        self_ty: self_ty.clone(),
        keep_debug_assert: req["debug_assert"].as_str() == Some("check"),
        no_inline: false,
    };
    FnChoice { notes: &mut cx.notes }.visit_block_mut(&mut block);
    Inliner { cx: &mut cx }.visit_block_mut(&mut block);
    let mut notes = std::mem::take(&mut cx.notes);
    for f in &cx.inlined {
        notes.push(format!("call to {f} (no contract of its own) replaced by its body"));
    }
    // locals (for calls through function pointers)
    let mut loc: BTreeSet<String> = BTreeSet::new();
    {
        struct L<'a>(&'a mut BTreeSet<String>);
        impl<'a, 'b> Visit<'b> for L<'a> {
            fn visit_pat_ident(&mut self, p: &'b PatIdent) {
                self.0.insert(p.ident.to_string());
                visit::visit_pat_ident(self, p);
            }
        }
        L(&mut loc).visit_block(&block);
        L(&mut loc).visit_signature(&sig);
    }
    let (mut sets, mut ref_sets) = (BTreeSet::new(), BTreeSet::new());
    {
        struct S<'a>(&'a mut BTreeSet<String>, &'a mut BTreeSet<String>);
        impl<'a, 'b> Visit<'b> for S<'a> {
            fn visit_local(&mut self, l: &'b Local) {
                let mut v = vec![];
                pat_idents(&l.pat, &mut v);
                let ty = if let Pat::Type(t) = &l.pat { tokstr(&t.ty) } else { String::new() };
                let init = l.init.as_ref().map(|i| tokstr(&i.expr)).unwrap_or_default();
                if v.len() == 1 && (ty.starts_with("HashSet") || init.starts_with("HashSet ::") || init.starts_with("generate_equivalence_class")) {
                    self.0.insert(v[0].clone());
                }
                if v.len() == 1 && ty.replace(' ', "").starts_with("&HashSet") {
                    self.1.insert(v[0].clone());
                    self.0.insert(v[0].clone());
                }
                visit::visit_local(self, l);
            }
            fn visit_fn_arg(&mut self, a: &'b FnArg) {
                if let FnArg::Typed(t) = a {
                    let ty = tokstr(&t.ty).replace(' ', "");
                    let mut v = vec![];
                    pat_idents(&t.pat, &mut v);
                    if ty.starts_with("&HashSet") {
                        self.1.extend(v.clone());
                    }
                    if ty.starts_with("&HashSet") || ty.starts_with("HashSet") {
                        self.0.extend(v);
                    }
                }
            }
        }
        let mut sv = S(&mut sets, &mut ref_sets);
        sv.visit_block(&block);
        sv.visit_signature(&sig);
    }
    if !cx.keep_debug_assert {
        drop_reports(&mut block, &mut notes);
    }
    iterator_fn(&mut sig, &mut block, &mut notes);
    let mut nm = Norm { notes: &mut notes, keep_debug_assert: cx.keep_debug_assert, locals: loc, sets, ref_sets, fresh: 0, collect_set: req["collect"].as_str() == Some("set"), iproduct_ref: req["iproduct"].as_str() == Some("ref"), ref_params: sig.inputs.iter().filter_map(|a| match a { FnArg::Typed(t) if tokstr(&t.ty).replace(' ', "").starts_with("&Vec<") => match &*t.pat { Pat::Ident(i) => Some(i.ident.to_string()), _ => None }, _ => None }).collect() };
    nm.visit_block_mut(&mut block);
    nm.visit_signature_mut(&mut sig);
    if req["str"].as_str() == Some("vx") {
        TextPass { notes: &mut notes }.visit_block_mut(&mut block);
    }
    Uncont { notes: &mut notes }.visit_block_mut(&mut block);
    let mut mkr = Marker { ifs: 0, loops: vec![], locals: vec![], keep: BTreeSet::new() };
    let _ = &mkr.keep;
    mkr.visit_block_mut(&mut block);
    let mut un = Unroll { notes: &mut notes, scopes: vec![], fresh: 0, max: req["unroll_max"].as_u64().unwrap_or(6) as usize };
    un.visit_block_mut(&mut block);
    // function start / end markers
    block.stmts.insert(0, mk("fs".into()));
    let tail = matches!(block.stmts.last(), Some(Stmt::Expr(_, None)));
    let is_loop_tail = matches!(block.stmts.last(), Some(Stmt::Expr(Expr::ForLoop(_) | Expr::While(_), None)));
    if tail && !is_loop_tail {
        let n = block.stmts.len();
        // a non-trivial tail expression is bound first so that the end marker sees its value
        let last = block.stmts.pop().unwrap();
        let unit = matches!(sig.output, ReturnType::Default);
        if let Stmt::Expr(e, None) = last {
            let trivially = matches!(e, Expr::Lit(_)) || matches!(&e, Expr::Path(p) if p.path.is_ident("self"));
            if unit {
                block.stmts.push(Stmt::Expr(e, Some(Default::default())));
                block.stmts.push(mk("fe".into()));
            } else if trivially {
                block.stmts.push(mk("fe".into()));
                block.stmts.push(Stmt::Expr(e, None));
            } else {
                let ty = match &sig.output {
                    ReturnType::Type(_, t) => (**t).clone(),
                    _ => parse_quote!(()),
                };
                let has_infer = tokstr(&ty).contains("impl");
                if has_infer {
                    block.stmts.push(Stmt::Expr(parse_quote!({ let vx_ret = #e; __vx!("fe"); vx_ret }), None));
                } else {
                    block.stmts.push(parse_quote!(let vx_ret : #ty = #e;));
                    block.stmts.push(mk("fe".into()));
                    block.stmts.push(Stmt::Expr(parse_quote!(vx_ret), None));
                }
            }
        }
        let _ = n;
    } else {
        block.stmts.push(mk("fe".into()));
    }
    let mut params = vec![];
    for a in &sig.inputs {
        match a {
            FnArg::Receiver(_) => params.push("self".to_string()),
            FnArg::Typed(t) => pat_idents(&t.pat, &mut params),
        }
    }
    let ret = match &sig.output {
        ReturnType::Default => None,
        ReturnType::Type(_, t) => Some(pretty(t.to_token_stream())),
    };
    let inputs: Vec<String> = sig.inputs.iter().map(|i| pretty(i.to_token_stream())).collect();
    let body = pretty(block.to_token_stream());
    let uns = contains_unsupported(&block.to_token_stream());
    json!({
        "ok": uns.is_empty(),
        "error": uns.join(","),
        "name": sig.ident.to_string(),
        "self_ty": self_ty,
        "inputs": inputs,
        "generics": pretty(sig.generics.to_token_stream()),
        "ret": ret,
        "params": params,
        "locals": mkr.locals,
        "loops": mkr.loops,
        "body": body,
        "notes": notes,
        "inlined": cx.inlined,
        "size": orig_lines,
    })
}

fn find_static(krate: &Crate, file: &str, name: &str) -> Option<(Type, Expr)> {
    let f = krate.files.get(file)?;
    for it in &f.items {
        match it {
            Item::Static(s) if s.ident == name => return Some(((*s.ty).clone(), (*s.expr).clone())),
            Item::Const(s) if s.ident == name => return Some(((*s.ty).clone(), (*s.expr).clone())),
            Item::Macro(m) if macro_name(&m.mac) == "lazy_static" => {
                // pub static ref NAME : T = EXPR ;
                struct Decl {
                    name: Ident,
                    ty: Type,
                    e: Expr,
                }
                struct Decls(Vec<Decl>);
                impl parse::Parse for Decls {
                    fn parse(input: parse::ParseStream) -> Result<Self> {
                        let mut v = vec![];
                        while !input.is_empty() {
                            let _ = input.call(Attribute::parse_outer)?;
                            let _: Visibility = input.parse()?;
                            let _: Token![static] = input.parse()?;
                            let _: Token![ref] = input.parse()?;
                            let name: Ident = input.parse()?;
                            let _: Token![:] = input.parse()?;
                            let ty: Type = input.parse()?;
                            let _: Token![=] = input.parse()?;
                            let e: Expr = input.parse()?;
                            let _: Token![;] = input.parse()?;
                            v.push(Decl { name, ty, e });
                        }
                        Ok(Decls(v))
                    }
                }
                if let Ok(ds) = m.mac.parse_body::<Decls>() {
                    for d in ds.0 {
                        if d.name == name {
                            return Some((d.ty, d.e));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}

fn do_type(krate: &Crate, req: &Value) -> Value {
    let file = req["file"].as_str().unwrap();
    let name = req["path"].as_str().unwrap();
    let f = match krate.files.get(file) {
        Some(f) => f,
        None => return json!({"ok": false, "error": format!("no file {file}")}),
    };
    let derives = |attrs: &Vec<Attribute>| -> Vec<String> {
        let mut v = vec![];
        for a in attrs {
            if a.path().is_ident("derive") {
                let _ = a.parse_nested_meta(|m| {
                    if let Some(i) = m.path.segments.last() {
                        v.push(i.ident.to_string());
                    }
                    Ok(())
                });
            }
        }
        v
    };
    for it in &f.items {
        match it {
            Item::Struct(s) if s.ident == name => {
                let mut fields = vec![];
                for (i, fl) in s.fields.iter().enumerate() {
                    let mut ty = fl.ty.clone();
                    let mut notes = vec![];
                    Norm { notes: &mut notes, keep_debug_assert: false, locals: Default::default(), sets: Default::default(), ref_sets: Default::default(), fresh: 0, collect_set: false, iproduct_ref: false, ref_params: Default::default() }.visit_type_mut(&mut ty);
                    fields.push(json!({"name": fl.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string()), "ty": pretty(ty.to_token_stream())}));
                }
                return json!({"ok": true, "kind": "struct", "generics": pretty(s.generics.to_token_stream()).trim(), "fields": fields, "derives": derives(&s.attrs)});
            }
            Item::Enum(s) if s.ident == name => {
                let vs: Vec<String> = s.variants.iter().map(|v| pretty(v.to_token_stream())).collect();
                return json!({"ok": true, "kind": "enum", "variants": vs, "derives": derives(&s.attrs)});
            }
            Item::Type(t) if t.ident == name => {
                return json!({"ok": true, "kind": "alias", "ty": pretty(t.ty.to_token_stream()), "derives": []});
            }
            _ => {}
        }
    }
    json!({"ok": false, "error": format!("type {name} not found in {file}")})
}

fn main() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let req: Value = serde_json::from_str(&s).unwrap();
    let krate = load(req["src"].as_str().unwrap(), &[]);
    let known: BTreeSet<String> = req["known"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
    if req["list"] == true {
        let v: Vec<Value> = krate.fns.iter().map(|f| json!({"file": f.file, "path": f.path, "trait": f.trait_impl})).collect();
        println!("{}", json!(v));
        return;
    }
    let mut out = vec![];
    for it in req["items"].as_array().unwrap() {
        let r = match it["kind"].as_str().unwrap() {
            "fn" | "static_init" => do_fn(&krate, it, &known),
            "type" => do_type(&krate, it),
            "const" => match find_static(&krate, it["file"].as_str().unwrap(), it["path"].as_str().unwrap()) {
                Some((t, e)) => json!({"ok": true, "ty": pretty(t.to_token_stream()), "expr": pretty(e.to_token_stream())}),
                None => json!({"ok": false, "error": "const not found"}),
            },
            _ => json!({"ok": false, "error": "bad kind"}),
        };
        out.push(r);
    }
    println!("{}", serde_json::to_string(&out).unwrap());
}
