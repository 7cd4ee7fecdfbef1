//! vx: mechanical extractor. Copies the text of real items/functions of /repo into a Verus
//! unit described by a template (*.vrs), inserting contracts, invariants and proof hints at
//! syntactic anchors. Everything it changes in the copied text is one of the rules below and
//! is logged in the map file:
//!   R1 attributes and doc comments before an item are dropped (derive lists are filtered)
//!   R2 `async fn` -> `fn`, `e.await` -> `e`
//!   R3 method renames listed by `//@method old new` (std method -> wrapper with a contract)
//!   R4 closure headers replaced by typed headers with an `ensures` (`//@closure`)
//!   R5 helpers without contract that the function calls are inlined (or copied, without contract)
//!   R6 explicit regex substitutions (`//@subst`), each logged
//!   R7 nested fn items are removed from the body when the template extracts them separately (`//@hoist`)
//!   R8 return type `-> T` becomes `-> (name: T)`
//!   R11 Option combinators with a closure (and_then, map, filter, map_or, is_some_and) written as a match (`//@opt desugar`)
//!   R18 a closure without a directive whose body is made of names, fields, integers and constructors only gets `ensures result == body`; `_` parameters get names
//!   R17 `ITER.for_each(|p| B)` written as `for p in ITER { B }` (`//@opt foreach` or `desugar`)
//!   R12 `break V` out of a loop in tail position of the function written as `return V`
//!   R13 ghost parameters and arguments (`//@ghostparam`, `//@ghostarg`): erased at run time
//!   R14 format!/write! with a literal format string written as a chain of calls on VxFmt (`//@method A format! -`)
//!   R15 range indexing written as a method call (`//@method A [..] name`)
//!   R16 a pattern `&P(x)` written as `P(x)` with `let x = *x;` at the start of the arm, branch or loop body
//!   R21 an awaited `async` block (also `.instrument(span)`) as a block
//!   R22 `for P in E { B }` over an iterator written as `while let Some(P) = NAME.next() { B }` (`//@opt fornext=NAME`)
//!   R23 a closure handed to an iterator written as a function of its parameters and what it captures (`//@closureblock`)
//!   R20 an `async` block handed to the pool written as a function of the variables it captures (`//@asyncblock`)
//!   R9 an import/path call rename (`//@path old new`)
use proc_macro2::Span;
use regex::Regex;
use serde_json::json;
use std::collections::{BTreeMap, HashMap, HashSet};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

#[derive(Clone, Debug, Default)]
struct FnDir {
    alias: String,
    path: String,
    line: usize,
    ret: Option<String>,
    attrs: String,
    requires: String,
    ensures: String,
    decreases: String,
    sig: String, // other signature clauses
    opt: HashSet<String>,
    loops: BTreeMap<usize, (Option<String>, String)>,
    hints: Vec<(Anchor, String)>,
    closures: BTreeMap<usize, String>,
    closure_rules: Vec<(String, String)>, // regex on the closure's text -> header ($1.. from the regex)
    substs: Vec<(String, String, bool)>,
    hoist: Vec<String>,
    rename: Option<String>,
    params: Option<String>,
    ghostparam: String,
}
#[derive(Clone, Debug)]
enum Anchor {
    Start,
    End,
    LoopStart(usize),
    LoopEnd(usize),
    BeforeLoop(usize),
    AfterLoop(usize),
    Before(String, usize),
    After(String, usize),
    BlockEnd(String, usize), // end of the body block of the innermost stmt matching
    Returns,
}

struct Src {
    rel: String,
    text: String,
    file: syn::File,
    line_off: Vec<usize>,
}
impl Src {
    fn new(rel: &str, text: String) -> Result<Src, String> {
        let file = syn::parse_file(&text).map_err(|e| format!("{rel}: parse error {e}"))?;
        let mut line_off = vec![0];
        for (i, b) in text.bytes().enumerate() {
            if b == b'\n' {
                line_off.push(i + 1)
            }
        }
        Ok(Src { rel: rel.to_string(), text, file, line_off })
    }
    fn off(&self, lc: proc_macro2::LineColumn) -> usize {
        let l0 = self.line_off[lc.line - 1];
        // column counts chars
        let line = &self.text[l0..];
        line.char_indices().nth(lc.column).map(|(i, _)| l0 + i).unwrap_or(self.text.len())
    }
    fn rng(&self, s: Span) -> (usize, usize) {
        (self.off(s.start()), self.off(s.end()))
    }
}

struct FoundFn<'a> {
    sig: &'a syn::Signature,
    block: &'a syn::Block,
    attrs: &'a Vec<syn::Attribute>,
    span_start: usize,
    span_end: usize,
    in_trait_impl: bool,
}

fn ty_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => ty_name(&r.elem),
        syn::Type::Slice(_) => "[]".into(),
        syn::Type::TraitObject(_) => "dyn".into(),
        _ => String::new(),
    }
}

fn vis_start(src: &Src, vis: &syn::Visibility, sig: &syn::Signature) -> usize {
    let s = src.off(sig.span().start());
    match vis {
        syn::Visibility::Inherited => s,
        v => src.off(v.span().start()).min(s),
    }
}

/// all functions of the file, as (path, FoundFn). Nested fns: "Outer::inner".
fn all_fns<'a>(src: &'a Src) -> Vec<(String, FoundFn<'a>)> {
    let mut out = vec![];
    fn nested<'a>(src: &'a Src, prefix: &str, b: &'a syn::Block, out: &mut Vec<(String, FoundFn<'a>)>) {
        for st in &b.stmts {
            if let syn::Stmt::Item(syn::Item::Fn(f)) = st {
                let p = format!("{prefix}::{}", f.sig.ident);
                out.push((
                    p.clone(),
                    FoundFn {
                        sig: &f.sig,
                        block: &f.block,
                        attrs: &f.attrs,
                        span_start: vis_start(src, &f.vis, &f.sig),
                        span_end: src.rng(f.block.span()).1,
                        in_trait_impl: false,
                    },
                ));
                nested(src, &p, &f.block, out);
            }
        }
    }
    fn items<'a>(src: &'a Src, prefix: &str, its: &'a [syn::Item], out: &mut Vec<(String, FoundFn<'a>)>) {
        for it in its {
            match it {
                syn::Item::Fn(f) => {
                    let p = format!("{prefix}{}", f.sig.ident);
                    out.push((
                        p.clone(),
                        FoundFn {
                            sig: &f.sig,
                            block: &f.block,
                            attrs: &f.attrs,
                            span_start: vis_start(src, &f.vis, &f.sig),
                            span_end: src.rng(f.block.span()).1,
                            in_trait_impl: false,
                        },
                    ));
                    nested(src, &p, &f.block, out);
                }
                syn::Item::Impl(im) => {
                    let tn = ty_name(&im.self_ty);
                    let tr = im.trait_.as_ref().map(|(_, p, _)| {
                        let l = p.segments.last().unwrap();
                        let a = match &l.arguments { syn::PathArguments::AngleBracketed(a) => { let a = &a.args; quote::quote!(<#a>).to_string().replace(' ', "") } _ => String::new() };
                        format!("{}{a}", l.ident)
                    });
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            let p = match &tr {
                                Some(t) => format!("{prefix}<{tn} as {t}>::{}", f.sig.ident),
                                None => format!("{prefix}{tn}::{}", f.sig.ident),
                            };
                            out.push((
                                p.clone(),
                                FoundFn {
                                    sig: &f.sig,
                                    block: &f.block,
                                    attrs: &f.attrs,
                                    span_start: vis_start(src, &f.vis, &f.sig),
                                    span_end: src.rng(f.block.span()).1,
                                    in_trait_impl: tr.is_some(),
                                },
                            ));
                            nested(src, &p, &f.block, out);
                        }
                    }
                }
                syn::Item::Trait(t) => {
                    for ti in &t.items {
                        if let syn::TraitItem::Fn(f) = ti {
                            if let Some(b) = &f.default {
                                let p = format!("{prefix}{}::{}", t.ident, f.sig.ident);
                                out.push((
                                    p,
                                    FoundFn {
                                        sig: &f.sig,
                                        block: b,
                                        attrs: &f.attrs,
                                        span_start: src.off(f.sig.span().start()),
                                        span_end: src.rng(b.span()).1,
                                        in_trait_impl: true,
                                    },
                                ));
                            }
                        }
                    }
                }
                syn::Item::Mod(m) => {
                    if let Some((_, its)) = &m.content {
                        let cfg_test = m.attrs.iter().any(|a| {
                            let t = quote::quote!(#a).to_string();
                            t.contains("cfg") && t.contains("test") && !t.contains("debug_assertions")
                        });
                        if !cfg_test {
                            items(src, &format!("{prefix}{}::", m.ident), its, out);
                        }
                    }
                }
                _ => {}
            }
        }
    }
    items(src, "", &src.file.items, &mut out);
    out
}

struct Collect<'a> {
    src: &'a Src,
    edits: Vec<(usize, usize, String)>,
    methods: &'a HashMap<String, String>,
    paths: &'a HashMap<String, String>,
    loops: Vec<(usize, usize, usize, usize, Option<(usize, usize)>)>, // start,end, block start, block end, for-expr span
    closures: Vec<(usize, usize, usize, Vec<String>, bool)>,                // start, header end(body start), body end
    stmts: Vec<(usize, usize, Vec<(usize, usize)>)>,
    returns: Vec<(usize, usize)>,
    awaits: usize,
    applied: Vec<String>,
    plain: Vec<(usize, String)>, // closures whose body is a plain expression, with the header that states its value
    skip_closures: bool,
    nested: Vec<(String, usize, usize)>,
    closure_depth: usize,
    ghosts: &'a HashMap<String, String>,
    asyncs: HashSet<String>,
}
impl<'a> Collect<'a> {
    /// R13: a call of a function that takes a ghost argument gets it as its last argument
    fn ghost(&mut self, name: &str, close: usize, empty: bool, trailing: bool) {
        if let Some(g) = self.ghosts.get(name) {
            self.edits.push((close, close, if empty || trailing { g.clone() } else { format!(", {g}") }));
            self.applied.push(format!("R13 ghost argument {g} of {name}"));
        }
    }
    /// R14: format!/write! with literal text, `{}`, `{:?}`, `{name}` and `{name:?}` as a chain of calls on VxFmt
    fn format_macro(&mut self, m: &syn::Macro, write: bool) {
        type P = syn::punctuated::Punctuated<syn::Expr, syn::Token![,]>;
        let args: Vec<syn::Expr> = match m.parse_body_with(P::parse_terminated) { Ok(a) => a.into_iter().collect(), Err(_) => return };
        let (ms, me) = self.rng(m);
        let (w, args) = if write { if args.is_empty() { return } (Some(&args[0]), &args[1..]) } else { (None, &args[..]) };
        let lit = match args.first() { Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. })) => l.value(), _ => return };
        let args = &args[1..];
        // pieces
        enum Pc { Lit(String), Arg(bool), Name(String, bool) }
        let (mut ps, mut cur, mut it) = (vec![], String::new(), lit.chars().peekable());
        while let Some(c) = it.next() {
            match c {
                '{' if it.peek() == Some(&'{') => { it.next(); cur.push('{') }
                '}' if it.peek() == Some(&'}') => { it.next(); cur.push('}') }
                '{' => {
                    let mut body = String::new();
                    loop { match it.next() { Some('}') => break, Some(c) => body.push(c), None => return } }
                    let (n, f) = match body.split_once(':') { Some((n, f)) => (n.trim().to_string(), f.trim().to_string()), None => (body.trim().to_string(), String::new()) };
                    let dbg = match f.as_str() { "" => false, "?" => true, _ => return };
                    if !cur.is_empty() { ps.push(Pc::Lit(std::mem::take(&mut cur))) }
                    if n.is_empty() { ps.push(Pc::Arg(dbg)) } else if n.chars().next().unwrap().is_ascii_digit() { return } else { ps.push(Pc::Name(n, dbg)) }
                }
                c => cur.push(c),
            }
        }
        if !cur.is_empty() { ps.push(Pc::Lit(cur)) }
        if ps.iter().filter(|p| matches!(p, Pc::Arg(_))).count() != args.len() || args.iter().any(|a| matches!(a, syn::Expr::Assign(_))) { return }
        let mut pos = ms;
        let mut text = String::new();
        if let Some(w) = w {
            let (a, b) = self.rng(w);
            self.edits.push((pos, a, String::new()));
            pos = b;
            text.push_str(".vx_write_fmt(");
        }
        text.push_str("VxFmt::new()");
        let mut k = 0;
        for p in &ps {
            match p {
                Pc::Lit(l) => text.push_str(&format!(".lit({l:?})")),
                Pc::Name(n, d) => text.push_str(&format!(".{}(&{n})", if *d { "dbg" } else { "disp" })),
                Pc::Arg(d) => {
                    text.push_str(&format!(".{}(&(", if *d { "dbg" } else { "disp" }));
                    let (a, b) = self.rng(&args[k]);
                    self.edits.push((pos, a, std::mem::take(&mut text)));
                    pos = b;
                    text.push_str("))");
                    k += 1;
                }
            }
        }
        text.push_str(if write { ")" } else { ".string()" });
        self.edits.push((pos, me, text));
        self.applied.push(format!("R14 {} written as a chain of calls", quote::quote!(#m)));
        if let Some(w) = w { self.visit_expr(w) }
        for a in args { self.visit_expr(a) }
    }
    fn rng<T: Spanned>(&self, t: &T) -> (usize, usize) {
        self.src.rng(t.span())
    }
    /// R16: reference patterns; returns the variables to dereference
    fn ref_pats(&mut self, p: &syn::Pat) -> Vec<String> {
        struct R { amps: Vec<Span>, vars: Vec<String>, inside: bool, bad: bool }
        impl<'y> Visit<'y> for R {
            fn visit_pat_reference(&mut self, r: &'y syn::PatReference) {
                if r.mutability.is_some() || self.inside { self.bad = true; return }
                self.amps.push(r.and_token.span());
                self.inside = true;
                self.visit_pat(&r.pat);
                self.inside = false;
            }
            fn visit_pat_ident(&mut self, i: &'y syn::PatIdent) {
                if !self.inside { visit::visit_pat_ident(self, i); return }
                if i.by_ref.is_some() || i.subpat.is_some() || i.mutability.is_some() { self.bad = true; return }
                let n = i.ident.to_string();
                if n.chars().next().map_or(false, |c| !c.is_uppercase()) { self.vars.push(n) }
            }
            fn visit_pat_or(&mut self, o: &'y syn::PatOr) { if self.inside { self.bad = true } visit::visit_pat_or(self, o) }
        }
        let mut r = R { amps: vec![], vars: vec![], inside: false, bad: false };
        r.visit_pat(p);
        if r.bad || r.amps.is_empty() { return vec![] }
        for a in r.amps { let (s, e) = self.src.rng(a); self.edits.push((s, e, String::new())) }
        self.applied.push(format!("R16 reference pattern {}", quote::quote!(#p)));
        r.vars
    }
}
fn derefs(v: &[String]) -> String { v.iter().map(|x| format!("let {x} = *{x}; ")).collect() }
impl<'a, 'ast> Visit<'ast> for Collect<'a> {
    fn visit_arm(&mut self, a: &'ast syn::Arm) {
        if a.guard.is_none() {
            let v = self.ref_pats(&a.pat);
            if !v.is_empty() {
                let (s, e) = self.rng(&*a.body);
                self.edits.push((s, s, format!("{{ {}", derefs(&v))));
                self.edits.push((e, e, " }".into()));
            }
        }
        visit::visit_arm(self, a);
    }
    fn visit_expr_if(&mut self, i: &'ast syn::ExprIf) {
        if let syn::Expr::Let(l) = &*i.cond {
            let v = self.ref_pats(&l.pat);
            if !v.is_empty() {
                let b = self.rng(&i.then_branch).0 + 1;
                self.edits.push((b, b, format!(" {}", derefs(&v))));
            }
        }
        visit::visit_expr_if(self, i);
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        if let Some(n) = self.methods.get(&m.method.to_string()) {
            let (s, e) = self.rng(&m.method);
            self.edits.push((s, e, n.clone()));
            self.applied.push(format!("R3 .{}() -> .{}()", m.method, n));
        }
        let close = self.rng(m).1 - 1;
        self.ghost(&m.method.to_string(), close, m.args.is_empty(), m.args.trailing_punct());
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let close = self.rng(c).1 - 1;
            let key = segs[segs.len().saturating_sub(2)..].join("::");
            self.ghost(&key, close, c.args.is_empty(), c.args.trailing_punct());
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_path(&mut self, p: &'ast syn::Path) {
        let t = quote::quote!(#p).to_string().replace(' ', "");
        if let Some(n) = self.paths.get(&t) {
            let (s, e) = self.rng(p);
            self.edits.push((s, e, n.clone()));
            self.applied.push(format!("R9 {} -> {}", t, n));
        } else {
            if p.segments.len() > 1 && !p.segments.last().unwrap().arguments.is_none() {
                let k = p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
                if let Some(n) = self.paths.get(&k) {
                    let (s, _) = self.rng(p);
                    let (_, e) = self.rng(&p.segments.last().unwrap().ident);
                    self.edits.push((s, e, n.clone()));
                    self.applied.push(format!("R9 {} -> {}", k, n));
                }
            }
            visit::visit_path(self, p);
        }
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        let t = quote::quote!(#m).to_string();
        let name = m.path.segments.last().unwrap().ident.to_string() + "!";
        if let Some(n) = self.paths.get(&name) {
            let (s, _) = self.rng(&m.path);
            let (_, e) = self.rng(m);
            self.edits.push((s, e, n.clone()));
            self.applied.push(format!("R9 {} -> {}", t, n));
        }
        if (name == "format!" || name == "write!") && self.methods.contains_key("format!") && !self.paths.contains_key(&name) {
            self.format_macro(m, name == "write!");
        }
        visit::visit_macro(self, m);
    }
    fn visit_expr_index(&mut self, x: &'ast syn::ExprIndex) {
        if let (Some(n), syn::Expr::Range(r)) = (self.methods.get("[..]"), &*x.index) {
            if matches!(r.limits, syn::RangeLimits::HalfOpen(_)) {
                // R15: BASE[a..b] -> (*BASE.N(a, b)), BASE[..b] -> (*BASE.N_to(b)), BASE[a..] -> (*BASE.N_from(a))
                let (s, e) = self.rng(x);
                let be = self.rng(&*x.expr).1;
                let a = r.start.as_ref().map(|a| self.rng(&**a));
                let b = r.end.as_ref().map(|b| self.rng(&**b));
                self.edits.push((s, s, "(*".into()));
                match (a, b) {
                    (Some(a), Some(b)) => { self.edits.push((be, a.0, format!(".{n}("))); self.edits.push((a.1, b.0, ", ".into())); self.edits.push((b.1, e, "))".into())) }
                    (Some(a), None) => { self.edits.push((be, a.0, format!(".{n}_from("))); self.edits.push((a.1, e, "))".into())) }
                    (None, Some(b)) => { self.edits.push((be, b.0, format!(".{n}_to("))); self.edits.push((b.1, e, "))".into())) }
                    (None, None) => self.edits.push((be, e, format!(".{n}_all())"))),
                }
                self.applied.push(format!("R15 range index -> .{n}*()"));
            }
        }
        visit::visit_expr_index(self, x);
    }
    fn visit_expr_await(&mut self, a: &'ast syn::ExprAwait) {
        // R21: `async { B }.await`, `async { B }.instrument(span).await` -> `{ B }`, unless B leaves the block early
        let blk = match &*a.base {
            syn::Expr::Async(b) => Some(b),
            syn::Expr::MethodCall(m) if m.method == "instrument" && m.args.len() == 1 => match &*m.receiver { syn::Expr::Async(b) => Some(b), _ => None },
            _ => None,
        };
        if let Some(b) = blk {
            struct L(bool);
            impl<'y> Visit<'y> for L {
                fn visit_expr_return(&mut self, _: &'y syn::ExprReturn) { self.0 = true }
                fn visit_expr_try(&mut self, _: &'y syn::ExprTry) { self.0 = true }
                fn visit_expr_closure(&mut self, _: &'y syn::ExprClosure) {}
                fn visit_expr_async(&mut self, _: &'y syn::ExprAsync) {}
                fn visit_item(&mut self, _: &'y syn::Item) {}
            }
            let mut l = L(false);
            l.visit_block(&b.block);
            if !l.0 {
                let (s, _) = self.rng(b);
                let (bs, be) = self.rng(&b.block);
                let e = self.rng(a).1;
                self.edits.push((s, bs, String::new()));
                self.edits.push((be, e, String::new()));
                self.awaits += 1;
                self.applied.push("R21 awaited async block as a block".into());
                self.visit_block(&b.block);
                return;
            }
        }
        let s = self.rng(&*a.base).1;
        let e = self.rng(a).1;
        let callee = match &*a.base {
            syn::Expr::MethodCall(m) => m.method.to_string(),
            syn::Expr::Call(c) => match &*c.func { syn::Expr::Path(p) => p.path.segments.last().unwrap().ident.to_string(), _ => String::new() },
            _ => String::new(),
        };
        // an async function of the same file has become a function (R2)
        let forced = self.methods.get(&format!("{callee}.await"));
        let own = forced.map_or(self.asyncs.contains(&callee), |m| m == "-");
        let n = match forced.or(self.methods.get(".await")) {
            _ if own => String::new(),
            Some(m) => format!(".{m}({})", self.ghosts.get(m).cloned().unwrap_or_default()),
            None => String::new(),
        };
        self.edits.push((s, e, n));
        self.awaits += 1;
        visit::visit_expr_await(self, a);
    }
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        let (s, e) = self.rng(l);
        let (bs, be) = self.rng(&l.body);
        self.loops.push((s, e, bs, be, Some(self.rng(&*l.expr))));
        visit::visit_expr_for_loop(self, l);
    }
    fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) {
        let (s, e) = self.rng(l);
        let (bs, be) = self.rng(&l.body);
        self.loops.push((s, e, bs, be, None));
        if let syn::Expr::Let(x) = &*l.cond {
            let v = self.ref_pats(&x.pat);
            if !v.is_empty() { self.edits.push((bs + 1, bs + 1, format!(" {}", derefs(&v)))) }
        }
        visit::visit_expr_while(self, l);
    }
    fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
        let (s, e) = self.rng(l);
        let (bs, be) = self.rng(&l.body);
        self.loops.push((s, e, bs, be, None));
        visit::visit_expr_loop(self, l);
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        let (s, e) = self.rng(c);
        let (bs, _) = self.rng(&*c.body);
        let is_block = matches!(&*c.body, syn::Expr::Block(_));
        let pats = c.inputs.iter().map(|p| { let p = match p { syn::Pat::Type(t) => &*t.pat, p => p }; let r = self.rng(p); self.src.text[r.0..r.1].to_string() }).collect();
        let params: Option<Vec<String>> = c.inputs.iter().enumerate().map(|(i, p)| match p {
            syn::Pat::Wild(_) => Some(format!("vx_w{i}: _")),
            syn::Pat::Ident(x) if x.subpat.is_none() && x.by_ref.is_none() && x.mutability.is_none() => Some(format!("{}: _", x.ident)),
            _ => None,
        }).collect();
        if let (Some(ps), true, syn::ReturnType::Default) = (params, plain_expr(&c.body), &c.output) {
            let body = self.src.text[bs..e].to_string();
            self.plain.push((self.closures.len(), format!("|{}| -> (vx_r: _) ensures vx_same(vx_r, {body}) {{ ", ps.join(", "))));
        }
        self.closures.push((s, bs, e, pats, is_block));
        self.closure_depth += 1;
        visit::visit_expr_closure(self, c);
        self.closure_depth -= 1;
    }
    fn visit_expr_return(&mut self, r: &'ast syn::ExprReturn) {
        if self.closure_depth == 0 {
            let x = self.rng(r);
            self.returns.push(x);
        }
        visit::visit_expr_return(self, r);
    }
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        if let syn::Stmt::Item(syn::Item::Fn(f)) = s {
            let (a, b) = self.rng(s);
            self.nested.push((f.sig.ident.to_string(), a, b));
            return; // nested fn bodies are not part of this function's anchors
        }
        if let syn::Stmt::Item(_) = s {
            let (a, b) = self.rng(s);
            let n = match s {
                syn::Stmt::Item(syn::Item::Macro(m)) => format!("macro:{}", m.ident.as_ref().map(|i| i.to_string()).unwrap_or_default()),
                syn::Stmt::Item(syn::Item::Struct(m)) => format!("struct:{}", m.ident),
                _ => String::new(),
            };
            self.nested.push((n, a, b));
            return;
        }
        let (a, b) = self.rng(s);
        struct Blocks<'x>(&'x Src, Vec<(usize, usize)>);
        impl<'x, 'y> Visit<'y> for Blocks<'x> {
            fn visit_block(&mut self, b: &'y syn::Block) {
                let r = self.0.rng(b.span());
                self.1.push(r);
            }
        }
        let mut bl = Blocks(self.src, vec![]);
        bl.visit_stmt(s);
        self.stmts.push((a, b, bl.1));
        visit::visit_stmt(self, s);
    }
}

struct CallScan {
    names: Vec<(String, Option<String>)>,
}
impl<'ast> Visit<'ast> for CallScan {
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        if let syn::Expr::Path(p) = &*m.receiver {
            if p.path.is_ident("self") {
                self.names.push((m.method.to_string(), Some("self".into())));
            }
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            let segs: Vec<_> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if segs.len() == 1 {
                self.names.push((segs[0].clone(), None));
            } else if segs.len() == 2 {
                self.names.push((segs[1].clone(), Some(segs[0].clone())));
            }
        }
        visit::visit_expr_call(self, c);
    }
}

struct HasReturn(bool);
impl<'ast> Visit<'ast> for HasReturn {
    fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
}

/// what a function returns early with: `None`, `Err(..)` or anything
struct EarlyReturns { none: bool, err: bool, other: bool, tries: bool }
impl<'ast> Visit<'ast> for EarlyReturns {
    fn visit_expr_return(&mut self, r: &'ast syn::ExprReturn) {
        match r.expr.as_deref() {
            Some(syn::Expr::Path(p)) if p.path.is_ident("None") => self.none = true,
            Some(syn::Expr::Call(c)) if matches!(&*c.func, syn::Expr::Path(p) if p.path.is_ident("Err")) => self.err = true,
            _ => self.other = true,
        }
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, t: &'ast syn::ExprTry) { self.tries = true; visit::visit_expr_try(self, t) }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    fn visit_expr_async(&mut self, _: &'ast syn::ExprAsync) {}
}
/// "Option" or "Result" and the text of the error type
fn failure_type(src: &Src, o: &syn::ReturnType) -> Option<(bool, String)> {
    let t = match o { syn::ReturnType::Type(_, t) => match &**t { syn::Type::Path(p) => p, _ => return None }, _ => return None };
    let last = t.path.segments.last()?;
    let args: Vec<String> = match &last.arguments {
        syn::PathArguments::AngleBracketed(a) => a.args.iter().map(|a| { let r = src.rng(a.span()); src.text[r.0..r.1].to_string() }).collect(),
        _ => return None,
    };
    if last.ident == "Option" && args.len() == 1 { return Some((true, String::new())) }
    if last.ident != "Result" { return None }
    let pre: Vec<String> = t.path.segments.iter().map(|s| s.ident.to_string()).collect();
    Some((false, format!("{} {}", pre.join("::"), args.get(1).cloned().unwrap_or_default())))
}
struct Inner<'x> { src: &'x Src, out: Vec<(usize, usize)> }
impl<'x, 'ast> Visit<'ast> for Inner<'x> {
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) { self.out.push(self.src.rng(c.span())) }
    fn visit_expr_async(&mut self, c: &'ast syn::ExprAsync) { self.out.push(self.src.rng(c.span())) }
}

/// Inline calls of uncontracted same-file helpers into `text` (whole source file text), for function `path`.
/// Returns the new file text if something was inlined.
fn inline_once(src: &Src, path: &str, known: &HashSet<String>, log: &mut Vec<String>, uninlinable: &mut Vec<String>) -> Option<String> {
    let fns = all_fns(src);
    let me = fns.iter().find(|(p, _)| p == path)?;
    let self_ty = path.rsplit_once("::").map(|x| x.0.to_string()).unwrap_or_default();
    let self_bare = self_ty.trim_start_matches('<').split(' ').next().unwrap().split("::").last().unwrap().to_string();
    struct Finder<'x> {
        src: &'x Src,
        hits: Vec<(usize, usize, String, Vec<(usize, usize)>, Option<(usize, usize)>)>,
        cand: &'x dyn Fn(&str, Option<&str>) -> Option<String>,
    }
    impl<'x, 'y> Visit<'y> for Finder<'x> {
        fn visit_expr_method_call(&mut self, m: &'y syn::ExprMethodCall) {
            if let syn::Expr::Path(p) = &*m.receiver {
                if p.path.is_ident("self") {
                    if let Some(c) = (self.cand)(&m.method.to_string(), Some("self")) {
                        let (s, e) = self.src.rng(m.span());
                        self.hits.push((s, e, c, m.args.iter().map(|a| self.src.rng(a.span())).collect(), Some(self.src.rng(p.span()))));
                    }
                }
            }
            visit::visit_expr_method_call(self, m);
        }
        fn visit_expr_call(&mut self, c: &'y syn::ExprCall) {
            if let syn::Expr::Path(p) = &*c.func {
                let segs: Vec<_> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let k = match segs.len() {
                    1 => (self.cand)(&segs[0], None),
                    2 => (self.cand)(&segs[1], Some(&segs[0])),
                    _ => None,
                };
                if let Some(k) = k {
                    let (s, e) = self.src.rng(c.span());
                    self.hits.push((s, e, k, c.args.iter().map(|a| self.src.rng(a.span())).collect(), None));
                }
            }
            visit::visit_expr_call(self, c);
        }
    }
    let cand = |name: &str, q: Option<&str>| -> Option<String> {
        let mut opts = vec![];
        match q {
            None => {
                opts.push(name.to_string());
                opts.push(format!("{path}::{name}"));
            }
            Some("self") | Some("Self") => {
                opts.push(format!("{self_ty}::{name}"));
                opts.push(format!("{self_bare}::{name}"));
            }
            Some(t) => opts.push(format!("{t}::{name}")),
        }
        opts.into_iter().find(|o| fns.iter().any(|(p, _)| p == o) && !known.contains(o) && o != path)
    };
    let mut f = Finder { src, hits: vec![], cand: &cand };
    f.visit_block(me.1.block);
    for (s, e, callee, args, recv) in f.hits {
        let cf = &fns.iter().find(|(p, _)| *p == callee).unwrap().1;
        let mut hr = HasReturn(false);
        hr.visit_block(cf.block);
        let mut cs = CallScan { names: vec![] };
        cs.visit_block(cf.block);
        let rec = cs.names.iter().any(|(n, _)| callee.ends_with(&format!("::{n}")) || callee == *n);
        let mut params = vec![];
        let mut has_self = false;
        // an early return of the helper may be one of the caller: in tail position, or under `?` when it is the failure `?` hands on
        let mut early = !hr.0;
        if !early {
            let mut inner = Inner { src, out: vec![] };
            inner.visit_block(me.1.block);
            if !inner.out.iter().any(|r| r.0 <= s && e <= r.1) {
                let ty = |o: &syn::ReturnType| { let r = src.rng(o.span()); src.text[r.0..r.1].to_string() };
                let tail = matches!(me.1.block.stmts.last(), Some(syn::Stmt::Expr(x, None)) if src.rng(x.span()) == (s, e));
                let mut er = EarlyReturns { none: false, err: false, other: false, tries: false };
                er.visit_block(cf.block);
                early = if tail { ty(&me.1.sig.output) == ty(&cf.sig.output) }
                    else if !src.text[e..].trim_start().starts_with('?') || er.other { false }
                    else { match (failure_type(src, &me.1.sig.output), failure_type(src, &cf.sig.output)) { (Some(a), Some(b)) => a == b && if a.0 { !er.err } else { !er.none }, _ => false } };
            }
        }
        let mut ok = early && !rec && cf.sig.generics.params.is_empty();
        for a in &cf.sig.inputs {
            match a {
                syn::FnArg::Receiver(_) => has_self = true,
                syn::FnArg::Typed(t) => {
                    let (a0, a1) = src.rng(t.pat.span());
                    let (b0, b1) = src.rng(t.ty.span());
                    let ty = &src.text[b0..b1];
                    if ty.contains("impl ") || ty.contains('\'') {
                        ok = false;
                    }
                    params.push((src.text[a0..a1].to_string(), ty.to_string()));
                }
            }
        }
        if has_self && recv.is_none() {
            ok = false;
        }
        if params.len() != args.len() {
            ok = false;
        }
        // a helper that is awaited where it is called runs there
        let e_call = e;
        let mut e = e;
        if cf.sig.asyncness.is_some() {
            let after = &src.text[e..];
            match after.trim_start().strip_prefix(".await") {
                Some(rest) => e = src.text.len() - rest.len(),
                None => ok = false,
            }
        }
        if !ok {
            if !uninlinable.contains(&callee) {
                uninlinable.push(callee.clone());
            }
            continue;
        }
        let (bs, be) = src.rng(cf.block.span());
        let body = &src.text[bs..be];
        let mut lets = String::new();
        if !params.is_empty() {
            // arguments are evaluated in order before any parameter is bound
            for (i, (_, t)) in params.iter().enumerate() {
                lets.push_str(&format!("let vx_arg{i}: {} = {}; ", t, &src.text[args[i].0..args[i].1]));
            }
            for (i, (p, t)) in params.iter().enumerate() {
                lets.push_str(&format!("let {}: {} = vx_arg{i}; ", p, t));
            }
        }
        log.push(format!("R5 {path}: inlined call of {callee}"));
        // same-line replacement keeps the line map usable
        let mut t = src.text.clone();
        let nl = "\n".repeat(src.text[s..e].matches('\n').count().saturating_sub(src.text[s..e_call].matches('\n').count()));
        t.replace_range(s..e, &format!("({{ {lets}{body} }}){nl}"));
        return Some(t);
    }
    None
}

/// R11: `X.and_then(|p| B)` etc. on Options written out as a match (the closure may then modify captured state)
fn desugar_once(src: &Src, path: &str, only_for_each: bool, log: &mut Vec<String>) -> Option<String> {
    let fns = all_fns(src);
    let me = fns.iter().find(|(p, _)| p == path)?;
    struct F<'x> { src: &'x Src, hit: Option<(usize, usize, String, String)>, only_for_each: bool, tail: Option<(usize, usize)> }
    impl<'x, 'y> Visit<'y> for F<'x> {
        fn visit_expr_method_call(&mut self, m: &'y syn::ExprMethodCall) {
            visit::visit_expr_method_call(self, m); // innermost first
            if self.hit.is_some() { return }
            let name = m.method.to_string();
            let n = m.args.len();
            // ok_or_else on an Option, map_err on a Result
            if !self.only_for_each && n == 1 && (name == "ok_or_else" || name == "map_err" || name == "unwrap_or_else") {
                let t = |s: Span| { let r = self.src.rng(s); self.src.text[r.0..r.1].to_string() };
                let recv = t(m.receiver.span());
                let new = match &m.args[0] {
                    syn::Expr::Closure(c) => {
                        let mut hr = HasReturn(false);
                        hr.visit_expr(&c.body);
                        if hr.0 { return }
                        let body = t(c.body.span());
                        if name == "ok_or_else" && c.inputs.is_empty() { format!("(match {recv} {{ Some(vx_v) => Ok(vx_v), None => Err({{ {body} }}) }})") }
                        else if name == "map_err" && c.inputs.len() == 1 {
                            let pat = match &c.inputs[0] { syn::Pat::Type(p) => &*p.pat, p => p };
                            format!("(match {recv} {{ Ok(vx_v) => Ok(vx_v), Err({}) => Err({{ {body} }}) }})", t(pat.span()))
                        } else if name == "unwrap_or_else" && c.inputs.is_empty() { format!("(match {recv} {{ Some(vx_v) => vx_v, None => {{ {body} }} }})") }
                        else { return }
                    }
                    syn::Expr::Path(p) if name == "map_err" => format!("(match {recv} {{ Ok(vx_v) => Ok(vx_v), Err(vx_e) => Err({}(vx_e)) }})", t(p.span())),
                    _ => return,
                };
                let r = self.src.rng(m.span());
                self.hit = Some((r.0, r.1, new, name));
                return;
            }
            if self.only_for_each && name != "for_each" { return }
            let ok = match name.as_str() { "and_then" | "map" | "filter" | "is_some_and" | "inspect" | "for_each" => n == 1, "map_or" => n == 2, _ => false };
            if !ok { return }
            let c = match m.args.last() { Some(syn::Expr::Closure(c)) if c.inputs.len() == 1 => c, _ => return };
            let mut hr = HasReturn(false);
            hr.visit_expr(&c.body);
            // the value of the function: leaving the closure is leaving the function
            if hr.0 && !(name == "and_then" && self.tail == Some(self.src.rng(m.span()))) { return }
            let pat = match &c.inputs[0] { syn::Pat::Type(t) => &*t.pat, p => p };
            let t = |s: Span| { let r = self.src.rng(s); self.src.text[r.0..r.1].to_string() };
            let (pat, body, recv) = (t(pat.span()), t(c.body.span()), t(m.receiver.span()));
            let new = match name.as_str() {
                "and_then" => format!("(match {recv} {{ Some({pat}) => {{ {body} }}, None => None }})"),
                "map" => format!("(match {recv} {{ Some({pat}) => Some({{ {body} }}), None => None }})"),
                "filter" => format!("(match {recv} {{ Some(vx_o) => {{ let {pat} = &vx_o; if {{ {body} }} {{ Some(vx_o) }} else {{ None }} }}, None => None }})"),
                "for_each" => format!("for {pat} in {recv} {{ {body}; }}"),
                "is_some_and" => format!("(match {recv} {{ Some({pat}) => {{ {body} }}, None => false }})"),
                "inspect" => format!("(match {recv} {{ Some(vx_o) => {{ let {pat} = &vx_o; {body}; Some(vx_o) }}, None => None }})"),
                _ => format!("(match {recv} {{ Some({pat}) => {{ {body} }}, None => {} }})", t(m.args[0].span())),
            };
            let r = self.src.rng(m.span());
            self.hit = Some((r.0, r.1, new, name));
        }
    }
    let tail = match me.1.block.stmts.last() { Some(syn::Stmt::Expr(e, None)) => Some(src.rng(e.span())), _ => None };
    let mut f = F { src, hit: None, only_for_each, tail };
    f.visit_block(me.1.block);
    let (s, e, new, name) = f.hit?;
    if name == "for_each" { log.push(format!("{path}: R17 .for_each(|..|) written as a for loop")) } else {
    log.push(format!("{path}: R11 .{name}(|..|) on an Option written as a match")); }
    let mut t = src.text.clone();
    t.replace_range(s..e, &new);
    Some(t)
}

/// R22: `for P in E { B }` over what is an iterator itself written as `while let Some(P) = NAME.next() { B }`
fn for_next(src: &Src, path: &str, name: &str) -> Option<String> {
    struct F<'x> { src: &'x Src, hit: Option<(usize, usize, usize, (usize, usize), (usize, usize))> }
    impl<'x, 'y> Visit<'y> for F<'x> {
        fn visit_expr_for_loop(&mut self, l: &'y syn::ExprForLoop) {
            if self.hit.is_none() && l.label.is_none() {
                let (s, e) = self.src.rng(l.span());
                self.hit = Some((s, e, self.src.rng(l.body.span()).0, self.src.rng(l.pat.span()), self.src.rng(l.expr.span())));
            }
        }
        fn visit_expr_closure(&mut self, _: &'y syn::ExprClosure) {}
        fn visit_item(&mut self, _: &'y syn::Item) {}
    }
    let fns = all_fns(src);
    let me = fns.iter().find(|(p, _)| p == path)?;
    let mut f = F { src, hit: None };
    f.visit_block(me.1.block);
    let (s, e, b, p, x) = f.hit?;
    let mut t = src.text.clone();
    if Regex::new(&format!(r"\b{name}\b")).unwrap().is_match(&t[b..e]) { return None } // would mean another variable there
    let new = format!("{{ let mut {name} = {}; while let Some({}) = {name}.next() {} }}", &t[x.0..x.1], &t[p.0..p.1], &t[b..e]);
    t.replace_range(s..e, &new);
    Some(t)
}

/// made of names, fields, integers, constructors: means the same in a specification
fn plain_expr(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Path(_) => true,
        syn::Expr::Lit(l) => matches!(l.lit, syn::Lit::Int(_) | syn::Lit::Bool(_)),
        syn::Expr::Paren(p) => plain_expr(&p.expr),
        syn::Expr::Field(f) => plain_expr(&f.base),
        syn::Expr::Tuple(t) => t.elems.iter().all(plain_expr),
        syn::Expr::Call(c) => match &*c.func {
            syn::Expr::Path(p) => p.path.segments.last().map_or(false, |s| s.ident.to_string().starts_with(|c: char| c.is_uppercase())) && c.args.iter().all(plain_expr),
            _ => false,
        },
        _ => false,
    }
}
/// R12: `break V` of a `loop` in tail position of the function is `return V`
fn tail_breaks(src: &Src, block: &syn::Block) -> Vec<(usize, usize)> {
    struct B<'x> { src: &'x Src, out: Vec<(usize, usize)> }
    impl<'x, 'y> Visit<'y> for B<'x> {
        fn visit_expr_break(&mut self, b: &'y syn::ExprBreak) {
            if b.label.is_none() && b.expr.is_some() { self.out.push(self.src.rng(b.break_token.span())) }
            visit::visit_expr_break(self, b);
        }
        fn visit_expr_loop(&mut self, _: &'y syn::ExprLoop) {}
        fn visit_expr_while(&mut self, _: &'y syn::ExprWhile) {}
        fn visit_expr_for_loop(&mut self, _: &'y syn::ExprForLoop) {}
        fn visit_expr_closure(&mut self, _: &'y syn::ExprClosure) {}
        fn visit_item(&mut self, _: &'y syn::Item) {}
    }
    fn tail(src: &Src, e: &syn::Expr, out: &mut Vec<(usize, usize)>) {
        match e {
            syn::Expr::Block(b) if b.label.is_none() => blk(src, &b.block, out),
            syn::Expr::Paren(p) => tail(src, &p.expr, out),
            syn::Expr::If(i) => { blk(src, &i.then_branch, out); if let Some((_, e)) = &i.else_branch { tail(src, e, out) } }
            syn::Expr::Match(m) => for a in &m.arms { tail(src, &a.body, out) },
            syn::Expr::Loop(l) if l.label.is_none() => { let mut b = B { src, out: vec![] }; b.visit_block(&l.body); out.extend(b.out) }
            _ => {}
        }
    }
    fn blk(src: &Src, b: &syn::Block, out: &mut Vec<(usize, usize)>) {
        if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() { tail(src, e, out) }
    }
    let mut out = vec![];
    blk(src, block, &mut out);
    out
}

/// R20
fn async_block(src: &Src, path: &str, k: usize, head: &str, repl: &str) -> Result<Src, String> {
    struct A<'x> { src: &'x Src, out: Vec<(usize, usize, usize, usize)> }
    impl<'x, 'y> Visit<'y> for A<'x> {
        fn visit_expr_async(&mut self, a: &'y syn::ExprAsync) {
            let (s, e) = self.src.rng(a.span());
            let (bs, be) = self.src.rng(a.block.span());
            self.out.push((s, e, bs, be));
        }
    }
    let fns = all_fns(src);
    let f = fns.iter().find(|(p, _)| p == path).ok_or(format!("function {path} not found in {}", src.rel))?;
    let mut a = A { src, out: vec![] };
    a.visit_block(f.1.block);
    let (s, e, bs, be) = *a.out.get(k).ok_or(format!("async block {k} of {path} not found"))?;
    let mut t = src.text.clone();
    let body = t[bs..be].to_string();
    t.replace_range(s..e, repl);
    t.push_str(&format!("\nasync fn {head} {body}\n"));
    Src::new(&src.rel, t)
}
/// R23: the K-th closure of a function written as a function of its own parameters and of the variables it captures
fn closure_block(src: &Src, path: &str, k: usize, head: &str, repl: &str) -> Result<Src, String> {
    struct A<'x> { src: &'x Src, out: Vec<(usize, usize, (usize, usize), Vec<(usize, usize)>, bool)> }
    impl<'x, 'y> Visit<'y> for A<'x> {
        fn visit_expr_closure(&mut self, a: &'y syn::ExprClosure) {
            let (s, e) = self.src.rng(a.span());
            let typed = a.inputs.iter().all(|p| matches!(p, syn::Pat::Type(_)));
            self.out.push((s, e, self.src.rng(a.body.span()), a.inputs.iter().map(|p| self.src.rng(p.span())).collect(), typed));
            visit::visit_expr_closure(self, a);
        }
    }
    let fns = all_fns(src);
    let f = fns.iter().find(|(p, _)| p == path).ok_or(format!("function {path} not found in {}", src.rel))?;
    let mut a = A { src, out: vec![] };
    a.visit_block(f.1.block);
    let (s, e, b, ins, typed) = a.out.get(k).ok_or(format!("closure {k} of {path} not found"))?;
    // `{T, U} NAME(CAPTURED) -> RET`: the types of parameters written without
    let (types, head) = match head.strip_prefix('{').and_then(|h| h.split_once('}')) { Some((a, b)) => (a.split(',').map(|x| x.trim().to_string()).collect::<Vec<_>>(), b.trim()), None => (vec![], head) };
    if !typed && types.len() != ins.len() { return Err(format!("closure {k} of {path} has parameters without type")) }
    let mut t = src.text.clone();
    let body = t[b.0..b.1].to_string();
    let ins: String = ins.iter().enumerate().map(|(i, r)| match types.get(i) { Some(ty) if !*typed => format!("{}: {ty}, ", &t[r.0..r.1]), _ => format!("{}, ", &t[r.0..r.1]) }).collect();
    let (name, rest) = head.split_once('(').ok_or("head of closureblock")?;
    t.replace_range(*s..*e, repl);
    t.push_str(&format!("\nfn {name}({ins}{rest} {{ {body} }}\n"));
    Src::new(&src.rel, t)
}
fn use_leaves(t: &syn::UseTree, pre: String, out: &mut Vec<(String, String)>) {
    match t {
        syn::UseTree::Path(p) => use_leaves(&p.tree, format!("{pre}{}::", p.ident), out),
        syn::UseTree::Name(n) => out.push((format!("{pre}{}", n.ident), n.ident.to_string())),
        syn::UseTree::Rename(n) => out.push((format!("{pre}{}", n.ident), n.rename.to_string())),
        syn::UseTree::Group(g) => for x in &g.items { use_leaves(x, pre.clone(), out) },
        syn::UseTree::Glob(_) => {}
    }
}

/// lines that end in `//? loop`, `//? while` or `//? for` are for loops of that kind only
fn for_kind(src: &Src, at: usize, txt: &str) -> String {
    let kind: String = src.text[at..].chars().take_while(|c| c.is_alphabetic()).collect();
    txt.split('\n').filter(|l| l.rsplit_once("//?").map_or(true, |(_, k)| k.trim() == kind)).collect::<Vec<_>>().join("\n")
}

fn emit_fn(src: &Src, d: &FnDir, methods: &HashMap<String, String>, paths: &HashMap<String, String>, ghosts: &HashMap<String, String>, known: &HashSet<String>, vac: bool, drop_body: bool, log: &mut Vec<String>, lost: &mut Vec<String>, uninl: &mut Vec<String>) -> Option<String> {
    // R5
    let mut owned: Option<Src> = None;
    if !d.opt.contains("noinline") && !drop_body {
        for _ in 0..20 {
            let cur = owned.as_ref().unwrap_or(src);
            match inline_once(cur, &d.path, known, log, uninl) {
                Some(t) => match Src::new(&src.rel, t) {
                    Ok(s) => owned = Some(s),
                    Err(e) => {
                        lost.push(format!("{}: inlining failed: {e}", d.path));
                        break;
                    }
                },
                None => break,
            }
        }
    }
    if (d.opt.contains("desugar") || d.opt.contains("foreach")) && !drop_body {
        for _ in 0..30 {
            let cur = owned.as_ref().unwrap_or(src);
            match desugar_once(cur, &d.path, !d.opt.contains("desugar"), log) {
                Some(t) => match Src::new(&src.rel, t) {
                    Ok(s) => owned = Some(s),
                    Err(e) => { lost.push(format!("{}: desugaring failed: {e}", d.path)); break }
                },
                None => break,
            }
        }
    }
    if let Some(name) = d.opt.iter().find_map(|o| o.strip_prefix("fornext=")).filter(|_| !drop_body) {
        for _ in 0..4 {
            let cur = owned.as_ref().unwrap_or(src);
            match for_next(cur, &d.path, name) {
                Some(t) => match Src::new(&src.rel, t) {
                    Ok(s) => { owned = Some(s); log.push(format!("{}: R22 for loop over an iterator written as while let", d.path)) }
                    Err(e) => { lost.push(format!("{}: for loop: {e}", d.path)); break }
                },
                None => break,
            }
        }
    }
    let src = owned.as_ref().unwrap_or(src);
    let fns = all_fns(src);
    let ff = match fns.iter().find(|(p, _)| *p == d.path) {
        Some(x) => &x.1,
        None => {
            lost.push(format!("function {} not found in {}", d.path, src.rel));
            return None;
        }
    };
    let _ = ff.attrs;
    let mut c = Collect { src, edits: vec![], methods, paths, loops: vec![], closures: vec![], plain: vec![], stmts: vec![], returns: vec![], awaits: 0, applied: vec![], skip_closures: false, nested: vec![], closure_depth: 0, ghosts, asyncs: fns.iter().filter(|(_, f)| f.sig.asyncness.is_some()).map(|(_, f)| f.sig.ident.to_string()).collect() };
    let _ = c.skip_closures;
    c.visit_block(ff.block);
    // signature types may use renamed paths too
    for i in &ff.sig.inputs { if let syn::FnArg::Typed(t) = i { c.visit_type(&t.ty) } }
    if let syn::ReturnType::Type(_, t) = &ff.sig.output { c.visit_type(t) }
    if let Some(w) = &ff.sig.generics.where_clause { c.visit_where_clause(w) }
    for a in c.applied.drain(..) {
        log.push(format!("{}: {a}", d.path));
    }
    if c.awaits > 0 || ff.sig.asyncness.is_some() {
        log.push(format!("{}: R2 async stripped ({} awaits)", d.path, c.awaits));
    }
    let mut edits = std::mem::take(&mut c.edits);
    if let Some(a) = &ff.sig.asyncness {
        let (s, e) = src.rng(a.span());
        edits.push((s, e, String::new()));
    }
    let tb = tail_breaks(src, ff.block);
    if !tb.is_empty() { log.push(format!("{}: R12 break with a value from a loop in tail position written as return", d.path)) }
    for (a, b) in tb { edits.push((a, b, "return".into())) }
    // R18 `_` parameters are named
    let mut k = 0;
    for i in &ff.sig.inputs {
        if let syn::FnArg::Typed(t) = i {
            if let syn::Pat::Wild(w) = &*t.pat { let (s, e) = src.rng(w.span()); edits.push((s, e, format!("_vx_p{k}"))); }
            k += 1;
        }
    }
    // visibility dropped for uniformity
    let fn_kw = src.rng(ff.sig.fn_token.span()).0;
    if let Some(n) = &d.rename {
        let (s, e) = src.rng(ff.sig.ident.span());
        edits.push((s, e, n.clone()));
    }
    // return
    let (bs, be) = src.rng(ff.block.span());
    let rname = d.ret.clone().unwrap_or("vx_r".into());
    match &ff.sig.output {
        syn::ReturnType::Default => {}
        syn::ReturnType::Type(_, t) => {
            let (s, e) = src.rng(t.span());
            edits.push((s, s, format!("({rname}: ")));
            edits.push((e, e, ")".into()));
        }
    }
    if !d.ghostparam.is_empty() {
        let close = src.rng(ff.sig.paren_token.span.close()).0;
        let sep = if ff.sig.inputs.is_empty() || ff.sig.inputs.trailing_punct() { "" } else { ", " };
        edits.push((close, close, format!("{sep}{}", d.ghostparam)));
        log.push(format!("{}: R13 ghost parameter {}", d.path, d.ghostparam));
    }
    let mut spec = String::from("\n");
    if !d.requires.trim().is_empty() {
        spec.push_str(&format!("    requires\n{}\n", d.requires));
    }
    if vac {
        spec.push_str("    ensures false,\n");
    } else if !d.ensures.trim().is_empty() {
        spec.push_str(&format!("    ensures\n{}\n", d.ensures));
    }
    spec.push_str(&d.sig);
    if !d.decreases.trim().is_empty() {
        spec.push_str(&format!("    decreases {}\n", d.decreases));
    }
    edits.push((bs, bs, spec));
    // loops
    for (k, (it, inv)) in &d.loops {
        match c.loops.get(*k) {
            None => lost.push(format!("{}: loop {k} not found", d.path)),
            Some((_, _, lbs, _, fe)) => {
                if let Some(n) = it {
                    match fe {
                        Some((s, _)) => edits.push((*s, *s, format!("{n}: "))),
                        None => lost.push(format!("{}: loop {k} is not a for loop", d.path)),
                    }
                } else if fe.is_some() {
                    lost.push(format!("{}: loop {k} is a for loop", d.path));
                }
                edits.push((*lbs, *lbs, format!("\n{}\n", for_kind(src, c.loops[*k].0, inv))));
            }
        }
    }
    if c.loops.len() > d.loops.len() && !d.opt.contains("extraloops") {
        lost.push(format!("{}: {} loops, {} under contract", d.path, c.loops.len(), d.loops.len()));
    }
    let mut closures = d.closures.clone();
    for (re, h) in &d.closure_rules {
        let r = Regex::new(re).expect("bad regex in template");
        for (k, (s, _, e, ..)) in c.closures.iter().enumerate() {
            if closures.contains_key(&k) { continue }
            if let Some(m) = r.captures(&src.text[*s..*e]) {
                let mut t = String::new();
                m.expand(h, &mut t);
                closures.insert(k, t);
            }
        }
    }
    for (k, h) in &closures {
        match c.closures.get(*k) {
            None if d.opt.contains("optclosures") => {}
            None => lost.push(format!("{}: closure {k} not found", d.path)),
            Some((s, b, e, pats, is_block)) => {
                // a header parameter vx_pN stands for the N-th parameter's pattern
                let lets: String = pats.iter().enumerate().filter(|(i, _)| h.contains(&format!("vx_p{i}"))).map(|(i, p)| format!("let {p} = vx_p{i}; ")).collect();
                let is_block = *is_block && lets.is_empty();
                let is_block = &is_block;
                edits.push((*s, *b, h.clone() + &if *is_block { " ".to_string() } else { format!(" {{ {lets}") }));
                if !*is_block {
                    edits.push((*e, *e, " }".into()));
                }
                log.push(format!("{}: R4 closure {k} header typed", d.path));
            }
        }
    }
    for (k, h) in &c.plain {
        let (s, b, e, ..) = c.closures[*k];
        if closures.contains_key(k) || edits.iter().any(|x| x.1 >= s && x.0 <= e) { continue }
        edits.push((s, b, h.clone()));
        edits.push((e, e, " }".into()));
        log.push(format!("{}: R18 closure {k} states its value", d.path));
    }
    for h in &d.hoist {
        if let Some((_, a, b)) = c.nested.iter().find(|n| n.0 == *h) {
            edits.push((*a, *b, String::new()));
            log.push(format!("{}: R7 nested fn {h} hoisted", d.path));
        } else {
            lost.push(format!("{}: nested fn {h} not found", d.path));
        }
    }
    for (a, txt) in &d.hints {
        let txt = format!("\n{}\n", txt.trim_end());
        match a {
            Anchor::Start => edits.push((bs + 1, bs + 1, txt)),
            Anchor::End => {
                let pos = match ff.block.stmts.last() {
                    Some(syn::Stmt::Expr(e, None)) if !matches!(ff.sig.output, syn::ReturnType::Default) => src.rng(e.span()).0,
                    _ => be - 1,
                };
                edits.push((pos, pos, txt));
            }
            Anchor::LoopStart(k) => match c.loops.get(*k) {
                Some(l) => edits.push((l.2 + 1, l.2 + 1, for_kind(src, l.0, &txt))),
                None => {}
            },
            Anchor::LoopEnd(k) => match c.loops.get(*k) {
                Some(l) => edits.push((l.3 - 1, l.3 - 1, for_kind(src, l.0, &txt))),
                None => {}
            },
            Anchor::BeforeLoop(k) => match c.loops.get(*k) {
                Some(l) => edits.push((l.0, l.0, for_kind(src, l.0, &txt))),
                None => {}
            },
            Anchor::AfterLoop(k) => match c.loops.get(*k) {
                Some(l) => {
                    // after the statement that contains the loop
                    let st = c.stmts.iter().filter(|s| s.0 <= l.0 && s.1 >= l.1).min_by_key(|s| s.1 - s.0);
                    let p = st.map(|s| s.1).unwrap_or(l.1);
                    // nothing comes after the value of the function
                    let tail = matches!(ff.block.stmts.last(), Some(syn::Stmt::Expr(e, None)) if st.map_or(false, |s| (s.0, s.1) == src.rng(e.span()))) && !matches!(ff.sig.output, syn::ReturnType::Default);
                    if !tail { edits.push((p, p, for_kind(src, l.0, &txt))) }
                }
                None => {}
            },
            Anchor::Returns => {
                for (s, e) in &c.returns {
                    edits.push((*s, *s, format!("{{ {} ", txt.trim())));
                    edits.push((*e, *e, " }".into()));
                }
            }
            Anchor::Before(re, n) | Anchor::After(re, n) | Anchor::BlockEnd(re, n) => {
                let r = Regex::new(re).expect("bad regex in template");
                let mut hits: Vec<_> = c.stmts.iter().filter(|s| r.is_match(&src.text[s.0..s.1])).collect();
                // innermost matches only
                let hs: Vec<_> = hits.iter().map(|s| (s.0, s.1)).collect();
                hits.retain(|s| !hs.iter().any(|h| (h.0, h.1) != (s.0, s.1) && h.0 >= s.0 && h.1 <= s.1));
                match hits.get(*n) {
                    None => log.push(format!("{}: HINTLOST anchor /{re}/ #{n} not found", d.path)),
                    Some(s) => {
                        let p = match a {
                            Anchor::Before(..) => s.0,
                            Anchor::After(..) => s.1,
                            _ => match s.2.last() {
                                Some(b) => b.1 - 1,
                                None => s.1,
                            },
                        };
                        edits.push((p, p, txt));
                    }
                }
            }
        }
    }
    // apply edits in the range [fn_kw .. span_end]
    let start = fn_kw.min(ff.span_end);
    let end = ff.span_end;
    let mut idx: Vec<usize> = (0..edits.len()).collect();
    idx.sort_by_key(|i| (edits[*i].0, if edits[*i].0 == edits[*i].1 { 0 } else { 1 }, *i));
    let mut out = String::new();
    let mut pos = start;
    for i in idx {
        let (s, e, t) = &edits[i];
        if *s < start || *e > end {
            continue;
        }
        if *s < pos {
            // nested edit inside a replaced region: ignore
            continue;
        }
        out.push_str(&src.text[pos..*s]);
        out.push_str(t);
        pos = *e;
    }
    out.push_str(&src.text[pos..end]);
    if drop_body {
        // the body is not under proof: keep the signature and the contract, as an assumption
        out.clear();
        let mut es: Vec<(usize, usize, String)> = edits.iter().filter(|e| e.0 >= start && e.1 <= bs).cloned().collect();
        es.sort_by_key(|e| (e.0, if e.0 == e.1 { 0 } else { 1 }));
        let mut pos = start;
        for (s, e, t) in es {
            if s < pos { continue }
            out.push_str(&src.text[pos..s]);
            out.push_str(&t);
            pos = e;
        }
        out.push_str(&src.text[pos..bs]);
        out.push_str("{ unimplemented!() }");
    }
    // unsafe / const prefixes are before `fn`; keep only `fn`
    for (re, to, must) in &d.substs {
        let r = Regex::new(re).expect("bad subst regex");
        if r.is_match(&out) {
            out = r.replace_all(&out, to.as_str()).to_string();
            log.push(format!("{}: R6 /{re}/ => {to}", d.path));
        } else if *must {
            lost.push(format!("{}: subst /{re}/ does not match", d.path));
        }
    }
    Some(out)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str| args.iter().position(|a| a == n).map(|i| args[i + 1].clone());
    let repo = get("--repo").unwrap_or("/repo".into());
    let tmpl = get("--template").expect("--template");
    let outp = get("--out").expect("--out");
    let mapp = get("--map").expect("--map");
    let vac = args.iter().any(|a| a == "--vacuity");
    let drops: HashSet<String> = get("--drop").map(|d| d.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
    let text = load(&tmpl);

    let mut srcs: HashMap<String, Src> = HashMap::new();
    let mut methods: HashMap<String, HashMap<String, String>> = HashMap::new();
    let mut paths: HashMap<String, HashMap<String, String>> = HashMap::new();
    let mut ghosts: HashMap<String, HashMap<String, String>> = HashMap::new();
    let mut lost: Vec<String> = vec![];
    let mut log: Vec<String> = vec![];
    let mut files = vec![];
    // pass 1: files, directives
    enum Seg {
        Text(String, usize),
        Item(String, String, usize),
        Fn(FnDir),
    }
    let mut segs: Vec<Seg> = vec![];
    let lines: Vec<(String, usize)> = text;
    let mut i = 0;
    let mut known: HashSet<String> = HashSet::new();
    while i < lines.len() {
        let (l, ln) = &lines[i];
        let t = l.trim_start();
        if let Some(r) = t.strip_prefix("//@") {
            let mut w = r.trim().splitn(2, char::is_whitespace);
            let cmd = w.next().unwrap();
            let rest = w.next().unwrap_or("").trim();
            match cmd {
                "file" => {
                    let (a, p) = rest.split_once(' ').unwrap();
                    let full = format!("{repo}/{}", p.trim());
                    match std::fs::read_to_string(&full) {
                        Ok(tx) => match Src::new(p.trim(), tx) {
                            Ok(s) => {
                                files.push(p.trim().to_string());
                                srcs.insert(a.to_string(), s);
                            }
                            Err(e) => lost.push(e),
                        },
                        Err(e) => lost.push(format!("{full}: {e}")),
                    }
                }
                "method" | "path" => {
                    let v: Vec<&str> = rest.splitn(3, ' ').collect();
                    let m = if cmd == "method" { &mut methods } else { &mut paths };
                    m.entry(v[0].into()).or_default().insert(v[1].into(), v[2].into());
                }
                "closureblock" => {
                    let v = Regex::new(r"^(\S+) (.+?) (\d+) ((?:\{[^}]*\} )?\w+(?:<[^>]*>)?\(.*)$").unwrap().captures(&rest).expect("closureblock");
                    let v: Vec<&str> = (1..5).map(|i| v.get(i).unwrap().as_str()).collect();
                    let (head, repl) = v[3].split_once("=>").unwrap();
                    let new = srcs.get(v[0]).map(|src| closure_block(src, v[1], v[2].parse().unwrap(), head.trim(), repl.trim()));
                    match new {
                        Some(Ok(s)) => { log.push(format!("{}: R23 closure {} written as the function {}", v[1], v[2], head.trim())); srcs.insert(v[0].into(), s); }
                        Some(Err(e)) => lost.push(e),
                        None => {}
                    }
                }
                "asyncblock" => {
                    // alias FNPATH K NAME(PARAMS) => EXPR: R20, the K-th async block of FNPATH becomes the function NAME, EXPR stands for the future
                    let v: Vec<&str> = rest.splitn(4, ' ').collect();
                    let (head, repl) = v[3].split_once("=>").unwrap();
                    let new = srcs.get(v[0]).map(|src| async_block(src, v[1], v[2].parse().unwrap(), head.trim(), repl.trim()));
                    match new {
                        Some(Ok(s)) => { log.push(format!("{}: R20 async block {} written as the function {}", v[1], v[2], head.trim())); srcs.insert(v[0].into(), s); }
                        Some(Err(e)) => lost.push(e),
                        None => {}
                    }
                }
                "ghostarg" => {
                    let v: Vec<&str> = rest.splitn(3, ' ').collect();
                    ghosts.entry(v[0].into()).or_default().insert(v[1].into(), v[2].into());
                }
                "uses" => {
                    // names the file imports: `use P as N` with P matching /re/ makes N mean the replacement
                    let (a, r) = rest.split_once(' ').unwrap();
                    let (re, to) = r.split_once("=>").unwrap();
                    let re = re.trim();
                    let re = Regex::new(&re[1..re.len() - 1]).expect("bad regex in template");
                    if let Some(src) = srcs.get(a) {
                        let mut v = vec![];
                        for it in &src.file.items {
                            if let syn::Item::Use(u) = it { use_leaves(&u.tree, String::new(), &mut v) }
                        }
                        for (path, local) in v {
                            if let Some(m) = re.captures(&path) {
                                let mut t = String::new();
                                m.expand(to.trim(), &mut t);
                                // NAME @@ ARG: calls through the name also get the ghost argument ARG
                                if let Some((n, g)) = t.clone().split_once(" @@ ") {
                                    ghosts.entry(a.into()).or_default().insert(local.clone(), g.trim().into());
                                    t = n.trim().into();
                                }
                                paths.entry(a.into()).or_default().insert(local, t);
                            }
                        }
                    }
                }
                "known" => {
                    known.insert(rest.to_string());
                }
                "item" => {
                    let (a, p) = rest.split_once(' ').unwrap();
                    segs.push(Seg::Item(a.into(), p.into(), *ln));
                }
                "fn" => {
                    let (a, p) = rest.split_once(' ').unwrap();
                    let mut d = FnDir { alias: a.into(), path: p.trim().into(), line: *ln, ..Default::default() };
                    known.insert(d.path.clone());
                    enum Cur {
                        None,
                        Req,
                        Ens,
                        Dec,
                        Sig,
                        Attr,
                        Loop(usize),
                        Hint(usize),
                    }
                    let mut cur = Cur::None;
                    i += 1;
                    loop {
                        let (l, ln2) = &lines[i];
                        let t = l.trim_start();
                        if let Some(r) = t.strip_prefix("//@") {
                            let mut w = r.trim().splitn(2, char::is_whitespace);
                            let cmd = w.next().unwrap();
                            let rest = w.next().unwrap_or("").trim().to_string();
                            match cmd {
                                "endfn" => break,
                                "ret" => d.ret = Some(rest),
                                "ghostparam" => d.ghostparam = rest,
                                "rename" => d.rename = Some(rest),
                                "opt" => {
                                    for x in rest.split_whitespace() {
                                        d.opt.insert(x.into());
                                    }
                                }
                                "attr" => {
                                    d.attrs.push_str(&rest);
                                    d.attrs.push('\n');
                                    cur = Cur::Attr
                                }
                                "requires" => cur = Cur::Req,
                                "ensures" => cur = Cur::Ens,
                                "decreases" => {
                                    d.decreases.push_str(&rest);
                                    cur = Cur::Dec
                                }
                                "sig" => cur = Cur::Sig,
                                "hoist" => d.hoist.push(rest),
                                "loop" => {
                                    let v: Vec<&str> = rest.split_whitespace().collect();
                                    let k: usize = v[0].parse().unwrap();
                                    let it = if v.len() > 2 && v[1] == "iter" { Some(v[2].to_string()) } else { None };
                                    d.loops.insert(k, (it, String::new()));
                                    cur = Cur::Loop(k)
                                }
                                "closure" => {
                                    let (k, h) = rest.split_once(' ').unwrap();
                                    d.closures.insert(k.parse().unwrap(), h.trim().to_string());
                                }
                                "closures" => {
                                    let (a, b) = rest.split_once("=>").unwrap();
                                    let a = a.trim();
                                    d.closure_rules.push((a[1..a.len() - 1].to_string(), b.trim().to_string()));
                                }
                                "subst" | "subst?" => {
                                    let (a, b) = rest.split_once("=>").unwrap();
                                    let a = a.trim();
                                    let a = &a[1..a.len() - 1];
                                    d.substs.push((a.to_string(), b.trim().to_string(), cmd == "subst"));
                                }
                                "start" | "end" | "returns" | "loopstart" | "loopend" | "beforeloop" | "afterloop" | "before" | "after" | "blockend" => {
                                    let num = || rest.parse::<usize>().unwrap();
                                    let rx = || {
                                        // /regex/ [#n]
                                        let j = rest.rfind('/').unwrap();
                                        let n = rest[j + 1..].trim().trim_start_matches('#').parse().unwrap_or(0);
                                        (rest[1..j].to_string(), n)
                                    };
                                    let a = match cmd {
                                        "start" => Anchor::Start,
                                        "end" => Anchor::End,
                                        "returns" => Anchor::Returns,
                                        "loopstart" => Anchor::LoopStart(num()),
                                        "loopend" => Anchor::LoopEnd(num()),
                                        "beforeloop" => Anchor::BeforeLoop(num()),
                                        "afterloop" => Anchor::AfterLoop(num()),
                                        "before" => { let (a, b) = rx(); Anchor::Before(a, b) }
                                        "after" => { let (a, b) = rx(); Anchor::After(a, b) }
                                        _ => { let (a, b) = rx(); Anchor::BlockEnd(a, b) }
                                    };
                                    d.hints.push((a, String::new()));
                                    cur = Cur::Hint(d.hints.len() - 1)
                                }
                                x => panic!("template line {ln2}: unknown directive {x}"),
                            }
                        } else {
                            let ll = format!("{l}\n");
                            match cur {
                                Cur::None => {
                                    if !t.is_empty() && !t.starts_with("//") {
                                        panic!("template line {ln2}: text outside a clause")
                                    }
                                }
                                Cur::Req => d.requires.push_str(&ll),
                                Cur::Ens => d.ensures.push_str(&ll),
                                Cur::Dec => d.decreases.push_str(&ll),
                                Cur::Sig => d.sig.push_str(&ll),
                                Cur::Attr => d.attrs.push_str(&ll),
                                Cur::Loop(k) => d.loops.get_mut(&k).unwrap().1.push_str(&ll),
                                Cur::Hint(k) => d.hints[k].1.push_str(&ll),
                            }
                        }
                        i += 1;
                        if i >= lines.len() {
                            panic!("missing //@endfn for {}", d.path)
                        }
                    }
                    segs.push(Seg::Fn(d));
                }
                x => panic!("template line {ln}: unknown directive {x}"),
            }
        } else {
            segs.push(Seg::Text(l.clone(), *ln));
        }
        i += 1;
    }
    let empty = HashMap::new();
    let mut out = String::new();
    let mut map = vec![];
    let mut fns_out = vec![];
    let mut lost_fns = vec![];
    let lineno = |s: &String| s.bytes().filter(|b| *b == b'\n').count() + 1;
    for s in &segs {
        match s {
            Seg::Text(t, _) => {
                out.push_str(t);
                out.push('\n');
            }
            Seg::Item(a, p, _) => {
                if let Some(src) = srcs.get(a) {
                    // "struct Name [derive X,Y] [pubfields]"
                    let (head, opts) = match p.split_once('[') {
                        Some((h, o)) => (h.trim().to_string(), o.trim_end_matches(']').to_string()),
                        None => (p.trim().to_string(), String::new()),
                    };
                    let (kind, name) = head.split_once(' ').unwrap();
                    let mut found = None;
                    fn rec<'a>(its: &'a [syn::Item], kind: &str, name: &str) -> Option<&'a syn::Item> {
                        for it in its {
                            let ok = match it {
                                syn::Item::Struct(x) => kind == "struct" && x.ident == name,
                                syn::Item::Enum(x) => kind == "enum" && x.ident == name,
                                syn::Item::Type(x) => kind == "type" && x.ident == name,
                                syn::Item::Const(x) => kind == "const" && x.ident == name,
                                _ => false,
                            };
                            if ok {
                                return Some(it);
                            }
                            if let syn::Item::Mod(m) = it {
                                if let Some((_, i2)) = &m.content {
                                    if let Some(f) = rec(i2, kind, name) {
                                        return Some(f);
                                    }
                                }
                            }
                        }
                        None
                    }
                    if let Some(it) = rec(&src.file.items, kind, name) {
                        found = Some(it);
                    }
                    match found {
                        None => lost.push(format!("item {head} not found in {}", src.rel)),
                        Some(it) => {
                            let attrs: &Vec<syn::Attribute> = match it {
                                syn::Item::Struct(x) => &x.attrs,
                                syn::Item::Enum(x) => &x.attrs,
                                syn::Item::Type(x) => &x.attrs,
                                syn::Item::Const(x) => &x.attrs,
                                _ => unreachable!(),
                            };
                            let (s0, e0) = src.rng(it.span());
                            let mut s = s0;
                            for at in attrs {
                                s = s.max(src.rng(at.span()).1);
                            }
                            if s == s0 && !attrs.is_empty() {
                                s = src.rng(attrs.last().unwrap().span()).1;
                            }
                            let mut derives: Vec<String> = vec![];
                            for at in attrs {
                                if at.path().is_ident("derive") {
                                    let _ = at.parse_nested_meta(|m| {
                                        derives.push(m.path.segments.last().unwrap().ident.to_string());
                                        Ok(())
                                    });
                                }
                            }
                            for o in opts.split_whitespace() {
                                if let Some(ds) = o.strip_prefix("derive=") {
                                    let want: Vec<&str> = ds.split(',').collect();
                                    // Structural is Verus's promise that == is structural equality: the derived PartialEq and Eq
                                    let have: Vec<&str> = want.iter().copied().filter(|w| derives.iter().any(|d| d == w) || (*w == "Structural" && derives.iter().any(|d| d == "PartialEq") && derives.iter().any(|d| d == "Eq"))).collect();
                                    if have.len() != want.len() {
                                        lost.push(format!("item {head}: derive list {derives:?} lacks one of {want:?}"));
                                    }
                                    if !have.is_empty() {
                                        out.push_str(&format!("#[derive({})]\n", have.join(", ")));
                                    }
                                }
                                if let Some(ds) = o.strip_prefix("need=") {
                                    for w in ds.split(',') {
                                        if !derives.iter().any(|d| d == w) {
                                            lost.push(format!("item {head}: derive list {derives:?} lacks {w}"));
                                        }
                                    }
                                }
                            }
                            // field attributes (serde etc.) are dropped
                            let mut body = src.text[s..e0].trim().to_string();
                            let mut fat = vec![];
                            struct FA<'x>(&'x Src, &'x mut Vec<(usize, usize)>);
                            impl<'x, 'y> Visit<'y> for FA<'x> {
                                fn visit_field(&mut self, f: &'y syn::Field) {
                                    for a in &f.attrs {
                                        self.1.push(self.0.rng(a.span()));
                                    }
                                }
                                fn visit_variant(&mut self, v: &'y syn::Variant) {
                                    for a in &v.attrs {
                                        self.1.push(self.0.rng(a.span()));
                                    }
                                    visit::visit_variant(self, v);
                                }
                            }
                            FA(src, &mut fat).visit_item(it);
                            if !fat.is_empty() || paths.contains_key(a) {
                                struct TP<'x>(&'x Src, &'x HashMap<String, String>, Vec<(usize, usize, String)>);
                                impl<'x, 'y> Visit<'y> for TP<'x> {
                                    fn visit_path(&mut self, p: &'y syn::Path) {
                                        let t = quote::quote!(#p).to_string().replace(' ', "");
                                        if let Some(n) = self.1.get(&t) {
                                            let r = self.0.rng(p.span());
                                            self.2.push((r.0, r.1, n.clone()));
                                        } else {
                                            visit::visit_path(self, p)
                                        }
                                    }
                                }
                                let pm = paths.get(a).unwrap_or(&empty);
                                let mut tp = TP(src, pm, vec![]);
                                match it { syn::Item::Struct(x) => tp.visit_fields(&x.fields), syn::Item::Enum(x) => for v in &x.variants { tp.visit_variant(v) }, syn::Item::Type(x) => tp.visit_type(&x.ty), _ => {} }
                                let mut es: Vec<(usize, usize, String)> = tp.2;
                                for f in fat { es.push((f.0, f.1, String::new())); }
                                es.retain(|x| x.0 >= s);
                                es.sort();
                                let mut o = String::new();
                                let mut p = s;
                                for (a0, b0, t) in es {
                                    if a0 < p { continue }
                                    o.push_str(&src.text[p..a0]);
                                    o.push_str(&t);
                                    p = b0;
                                }
                                o.push_str(&src.text[p..e0]);
                                body = o.trim().to_string();
                            }
                            for o in opts.split_whitespace() {
                                if o == "open" {
                                    // make everything public so that specs may mention it
                                    let re = Regex::new(r"(?m)^(\s*)([A-Za-z_][A-Za-z0-9_]*)\s*:").unwrap();
                                    body = body.replace("pub(crate) ", "pub ");
                                    let k = body.find(|c| c == '{' || c == '(').unwrap_or(0); // not in where clauses
                                    body = format!("{}{}", &body[..k], re.replace_all(&body[k..], "${1}pub ${2}:"));
                                    if let syn::Item::Struct(x) = it {
                                        if let syn::Fields::Unnamed(u) = &x.fields {
                                            if u.unnamed.len() == 1 { body = body.replacen('(', "(pub ", 1); }
                                        }
                                    }
                                    body = body.replace("pub pub", "pub");
                                    if !body.starts_with("pub") { body = format!("pub {body}"); }
                                }
                            }
                            // R10 derive(PartialEq, PartialOrd) on a struct: the derive's expansion (lexicographic over
                            // the fields in declaration order), emitted so that it can be verified
                            let mut post = String::new();
                            if opts.split_whitespace().any(|o| o == "lexord") {
                                if let syn::Item::Struct(x) = it {
                                    if !derives.iter().any(|d| d == "PartialEq") || !derives.iter().any(|d| d == "PartialOrd") {
                                        lost.push(format!("item {head}: PartialEq/PartialOrd no longer derived"));
                                    }
                                    let fs: Vec<String> = x.fields.iter().filter_map(|f| f.ident.as_ref().map(|i| i.to_string())).collect();
                                    let eq = fs.iter().map(|f| format!("self.{f} == o.{f}")).collect::<Vec<_>>().join(" && ");
                                    let mut ord = String::new();
                                    for f in &fs {
                                        ord.push_str(&format!("if self.{f} < o.{f} {{ Some(core::cmp::Ordering::Less) }} else if self.{f} > o.{f} {{ Some(core::cmp::Ordering::Greater) }} else "));
                                    }
                                    ord.push_str("{ Some(core::cmp::Ordering::Equal) }");
                                    post = format!("impl vstd::std_specs::cmp::PartialEqSpecImpl for {name} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &{name}) -> bool {{ {eq} }} }}\nimpl PartialEq for {name} {{ fn eq(&self, o: &{name}) -> bool {{ {eq} }} }}\nimpl vstd::std_specs::cmp::PartialOrdSpecImpl for {name} {{ open spec fn obeys_partial_cmp_spec() -> bool {{ true }} open spec fn partial_cmp_spec(&self, o: &{name}) -> Option<core::cmp::Ordering> {{ {ord} }} }}\nimpl PartialOrd for {name} {{ fn partial_cmp(&self, o: &{name}) -> Option<core::cmp::Ordering> {{ {ord} }} }}\n");
                                    log.push(format!("{head}: R10 derive(PartialEq, PartialOrd) expanded"));
                                }
                            }
                            let l0 = lineno(&out);
                            out.push_str(&body);
                            out.push('\n');
                            out.push_str(&post);
                            out.push('\n');
                            map.push(json!({"name": head, "kind":"item", "from": l0, "to": lineno(&out)-1, "file": src.rel}));
                        }
                    }
                }
            }
            Seg::Fn(d) => {
                if let Some(src) = srcs.get(&d.alias) {
                    let mut uninl = vec![];
                    let mut lostf: Vec<String> = vec![];
                    // functions of the same name in several files go by the name they are given
                    let nm = d.rename.clone().filter(|r| r.contains("__")).unwrap_or(d.path.clone());
                    let dropped = drops.contains(&nm);
                    let m = methods.get(&d.alias).unwrap_or(&empty);
                    let p = paths.get(&d.alias).unwrap_or(&empty);
                    let novac = d.opt.contains("novac") || dropped;
                    // vacuity run: the function itself becomes a trusted contract, and a twin with the same body,
                    // the same precondition and `ensures false` is emitted next to it; it must fail
                    let g = ghosts.get(&d.alias).unwrap_or(&empty);
                    if let Some(t) = emit_fn(src, d, m, p, g, &known, false, dropped || (vac && !novac), &mut log, &mut lostf, &mut uninl) {
                        let twin = if vac && !novac {
                            let mut d2 = d.clone();
                            d2.rename = Some(format!("vac_twin_{}", d.rename.clone().unwrap_or(d.path.rsplit("::").next().unwrap().to_string())));
                            emit_fn(src, &d2, m, p, g, &known, true, false, &mut log, &mut lostf, &mut uninl)
                        } else { None };
                        // helpers that could not be inlined: copied without contract, before the function
                        for u in &uninl {
                            let prefix_me = d.path.rsplit_once("::").map(|x| x.0).unwrap_or("");
                            let prefix_u = u.rsplit_once("::").map(|x| x.0).unwrap_or("");
                            if prefix_me == prefix_u && !known.contains(u) {
                                lostf.push(format!("{}: calls {u}, which has no contract and cannot be inlined", d.path));
                            }
                        }
                        out.push_str(&d.attrs);
                        if dropped || twin.is_some() { out.push_str("#[verifier::external_body]\n"); }
                        let l0 = lineno(&out);
                        out.push_str(&t);
                        out.push('\n');
                        map.push(json!({"name": nm, "kind":"fn", "from": l0, "to": lineno(&out)-1, "file": src.rel, "vac": !d.opt.contains("novac"), "dropped": dropped}));
                        if let Some(t) = twin {
                            out.push_str(&d.attrs);
                            let l0 = lineno(&out);
                            out.push_str(&t);
                            out.push('\n');
                            map.push(json!({"name": nm, "kind":"twin", "from": l0, "to": lineno(&out)-1, "file": src.rel}));
                        }
                        fns_out.push(d.path.clone());
                    }
                    if !dropped {
                        for m in lostf { lost_fns.push(json!({"fn": nm, "why": m})); lost.push(m); }
                    }
                }
            }
        }
    }
    if out.contains("vx_same(") { out.push_str("\nverus! { pub open spec fn vx_same<T>(a: T, b: T) -> bool { a == b } }\n"); }
    std::fs::write(&outp, &out).unwrap();
    std::fs::write(&mapp, serde_json::to_string_pretty(&json!({"map": map, "lost": lost, "lost_fns": lost_fns, "log": log, "files": files, "functions": fns_out})).unwrap()).unwrap();
    for l in &lost {
        eprintln!("LOST {l}");
    }
}

fn load(p: &str) -> Vec<(String, usize)> {
    let t = std::fs::read_to_string(p).unwrap_or_else(|e| panic!("{p}: {e}"));
    let mut out = vec![];
    for (i, l) in t.lines().enumerate() {
        if let Some(r) = l.trim_start().strip_prefix("//@include") {
            let dir = std::path::Path::new(p).parent().unwrap();
            out.extend(load(dir.join(r.trim()).to_str().unwrap()));
        } else {
            out.push((l.to_string(), i + 1));
        }
    }
    out
}
