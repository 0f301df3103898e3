//! Source-to-source preparation of egobox crates for symbolic execution.
//! usage: symgen <sym|nat> <crate-name> <src-dir> <out-dir>
//!
//! sym: the floating point primitive is replaced by `symrs::Sym` (literals, casts, paths), calls of
//!      the random generator / inner optimizers go to stand-ins, an entry marker is put in every fn.
//! nat: only the stand-ins are substituted; everything else is compiled as written.
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::path::Path;
use syn::punctuated::Punctuated;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct V {
    sym: bool,
    krate: String,
    path: Vec<String>,
    in_const: u32,
}

fn is_cfg_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string().replace(' ', "");
        s == "#[cfg(test)]" || s == "#[test]" || s.starts_with("#[cfg(all(test")
    })
}
fn item_attrs(i: &Item) -> &[Attribute] {
    match i {
        Item::Const(x) => &x.attrs,
        Item::Enum(x) => &x.attrs,
        Item::Fn(x) => &x.attrs,
        Item::Impl(x) => &x.attrs,
        Item::Macro(x) => &x.attrs,
        Item::Mod(x) => &x.attrs,
        Item::Static(x) => &x.attrs,
        Item::Struct(x) => &x.attrs,
        Item::Trait(x) => &x.attrs,
        Item::Type(x) => &x.attrs,
        Item::Use(x) => &x.attrs,
        _ => &[],
    }
}
fn strip_suffix(s: &str) -> String {
    let s = s.strip_suffix("f64").or_else(|| s.strip_suffix("f32")).unwrap_or(s);
    let s = s.strip_suffix('_').unwrap_or(s);
    let s = s.replace('_', "");
    if s.ends_with('.') {
        format!("{s}0")
    } else if !s.contains('.') && !s.contains('e') && !s.contains('E') {
        format!("{s}.0")
    } else {
        s
    }
}
fn is_float_text(s: &str) -> bool {
    let c = s.chars().next().unwrap_or(' ');
    if !c.is_ascii_digit() || s.starts_with("0x") || s.starts_with("0b") || s.starts_with("0o") {
        return false;
    }
    for t in ["usize", "isize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"] {
        if s.ends_with(t) {
            return false;
        }
    }
    s.contains('.') || s.ends_with("f64") || s.ends_with("f32") || s.contains('e') || s.contains('E')
}
fn lit_tokens(text: &str) -> TokenStream {
    let l: Literal = strip_suffix(text).parse().unwrap();
    quote!(::symrs::lit(#l))
}
const STUBS: &[&str] = &["rand_xoshiro", "cobyla", "slsqp", "ndarray_npy"];

impl V {
    fn enter_name(&self, f: &str) -> String {
        let mut p = vec![self.krate.clone()];
        p.extend(self.path.iter().cloned());
        p.push(f.to_string());
        p.join("::")
    }
    fn marker(&self, block: &mut Block, f: &str) {
        if !self.sym {
            return;
        }
        let n = self.enter_name(f);
        let st: Stmt = parse_quote!(::symrs::enter(#n););
        block.stmts.insert(0, st);
    }
    fn map_use(&self, t: &UseTree) -> Option<UseTree> {
        if let UseTree::Path(p) = t {
            let h = p.ident.to_string();
            let inner = &p.tree;
            if STUBS.contains(&h.as_str()) || (self.sym && h == "statrs") {
                let id = &p.ident;
                return Some(parse_quote!(symrs::stubs::#id::#inner));
            }
            if self.sym && h == "libm" {
                return Some(parse_quote!(symrs::libm_::#inner));
            }
            if self.sym && (h == "std" || h == "core") {
                if let UseTree::Path(q) = &**inner {
                    if q.ident == "f64" || q.ident == "f32" {
                        let r = &q.tree;
                        return Some(parse_quote!(symrs::f64m::#r));
                    }
                }
            }
        }
        None
    }
    /// token level rewriting for macro bodies that are not plain expressions
    fn tokens(&self, ts: TokenStream) -> TokenStream {
        let mut out: Vec<TokenTree> = vec![];
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            match &v[i] {
                TokenTree::Group(g) => {
                    let mut ng = Group::new(g.delimiter(), self.tokens(g.stream()));
                    ng.set_span(g.span());
                    out.push(TokenTree::Group(ng));
                }
                TokenTree::Literal(l) if self.sym && is_float_text(&l.to_string()) => {
                    let prev_dot = matches!(out.last(), Some(TokenTree::Punct(p)) if p.as_char() == '.')
                        && !(out.len() >= 2
                            && matches!(&out[out.len() - 2], TokenTree::Punct(p) if p.as_char() == '.'));
                    if prev_dot {
                        out.push(v[i].clone());
                    } else {
                        out.extend(lit_tokens(&l.to_string()));
                    }
                }
                TokenTree::Ident(id)
                    if self.sym
                        && id == "as"
                        && matches!(v.get(i + 1), Some(TokenTree::Ident(t)) if is_num_ty(&t.to_string()))
                        && !matches!(v.get(i + 2), Some(TokenTree::Punct(p)) if p.as_char() == ':') =>
                {
                    let ty = v[i + 1].to_string();
                    let mut chain = vec![];
                    while let Some(t) = out.last() {
                        let ok = match t {
                            TokenTree::Ident(x) => {
                                let x = x.to_string();
                                !["return", "let", "in", "if", "else", "match", "while", "mut", "as"]
                                    .contains(&x.as_str())
                            }
                            TokenTree::Group(g) => g.delimiter() != Delimiter::Brace,
                            TokenTree::Literal(_) => true,
                            TokenTree::Punct(p) => ".$:?".contains(p.as_char()),
                        };
                        if !ok {
                            break;
                        }
                        chain.push(out.pop().unwrap());
                    }
                    chain.reverse();
                    let e: TokenStream = chain.into_iter().collect();
                    let tyid = Ident::new(&ty, Span::call_site());
                    let q = if ty == "f64" || ty == "f32" {
                        quote!(::symrs::to_sym(#e))
                    } else {
                        quote!(::symrs::cast::<#tyid, _>(#e))
                    };
                    out.extend(q);
                    i += 1;
                }
                TokenTree::Ident(id) => {
                    let s = id.to_string();
                    let colons = matches!(v.get(i + 1), Some(TokenTree::Punct(p)) if p.as_char() == ':')
                        && matches!(v.get(i + 2), Some(TokenTree::Punct(p)) if p.as_char() == ':');
                    let headed = matches!(out.last(), Some(TokenTree::Punct(p)) if p.as_char() == ':');
                    if colons && !headed && (STUBS.contains(&s.as_str()) || (self.sym && s == "statrs")) {
                        out.extend(quote!(::symrs::stubs::#id));
                    } else if colons && !headed && self.sym && s == "libm" {
                        out.extend(quote!(::symrs::libm_));
                    } else if colons
                        && self.sym
                        && (s == "std" || s == "core")
                        && matches!(v.get(i + 3), Some(TokenTree::Ident(t)) if t == "f64" || t == "f32")
                    {
                        out.extend(quote!(::symrs::f64m));
                        i += 3;
                    } else {
                        out.push(v[i].clone());
                    }
                }
                t => out.push(t.clone()),
            }
            i += 1;
        }
        out.into_iter().collect()
    }
}
fn is_num_ty(s: &str) -> bool {
    matches!(
        s,
        "f64" | "f32" | "usize" | "isize" | "u8" | "u16" | "u32" | "u64" | "u128" | "i8" | "i16" | "i32" | "i64" | "i128"
    )
}

struct FloatPats(Vec<(Ident, TokenStream)>);
impl VisitMut for FloatPats {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Lit(ExprLit { lit: Lit::Float(f), .. }) = p {
            let id = Ident::new(&format!("__fl{}", self.0.len()), Span::call_site());
            self.0.push((id.clone(), lit_tokens(&f.to_string())));
            *p = parse_quote!(#id);
            return;
        }
        visit_mut::visit_pat_mut(self, p);
    }
}

struct MacroArgs(Punctuated<Expr, Token![,]>);
impl parse::Parse for MacroArgs {
    fn parse(i: parse::ParseStream) -> Result<Self> {
        Ok(MacroArgs(Punctuated::parse_terminated(i)?))
    }
}
struct Repeat(Expr, Expr);
impl parse::Parse for Repeat {
    fn parse(i: parse::ParseStream) -> Result<Self> {
        let a = i.parse()?;
        i.parse::<Token![;]>()?;
        Ok(Repeat(a, i.parse()?))
    }
}

impl VisitMut for V {
    fn visit_item_const_mut(&mut self, c: &mut ItemConst) {
        self.visit_type_mut(&mut c.ty);
        self.in_const += 1;
        self.visit_expr_mut(&mut c.expr);
        self.in_const -= 1;
    }
    fn visit_item_static_mut(&mut self, c: &mut ItemStatic) {
        self.in_const += 1;
        visit_mut::visit_item_static_mut(self, c);
        self.in_const -= 1;
    }
    fn visit_impl_item_const_mut(&mut self, c: &mut ImplItemConst) {
        self.in_const += 1;
        visit_mut::visit_impl_item_const_mut(self, c);
        self.in_const -= 1;
    }
    fn visit_attribute_mut(&mut self, _a: &mut Attribute) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.sym && self.in_const > 0 {
            // float constant arithmetic stays primitive and is wrapped as a whole
            if let Expr::Binary(_) | Expr::Unary(_) = e {
                let t = e.to_token_stream().to_string();
                let floaty = t.split(|c: char| !(c.is_alphanumeric() || c == '.' || c == '_' ))
                    .any(|w| is_float_text(w) || w == "f64");
                if floaty {
                    struct C;
                    impl VisitMut for C {
                        fn visit_expr_mut(&mut self, e: &mut Expr) {
                            if let Expr::Path(p) = e {
                                let s = p.path.to_token_stream().to_string().replace(' ', "");
                                if s.contains("f64::") {
                                    if s.starts_with("f64::") {
                                        let q: Expr = parse_str(&format!("::core::primitive::{s}")).unwrap();
                                        *e = q;
                                    }
                                } else {
                                    let q = p.clone();
                                    *e = parse_quote!(::symrs::cval(#q));
                                }
                                return;
                            }
                            visit_mut::visit_expr_mut(self, e);
                        }
                    }
                    C.visit_expr_mut(e);
                    let inner = e.clone();
                    *e = parse_quote!(::symrs::lit(#inner));
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if !self.sym {
            return;
        }
        // float literal patterns become bindings plus comparisons
        if let Expr::Let(l) = e {
            let mut fp = FloatPats(vec![]);
            fp.visit_pat_mut(&mut l.pat);
            if !fp.0.is_empty() {
                let base = l.clone();
                let mut q: Expr = parse_quote!(#base);
                for (id, t) in fp.0 {
                    q = Expr::Binary(ExprBinary {
                        attrs: vec![],
                        left: Box::new(q),
                        op: BinOp::And(Default::default()),
                        right: parse_quote!(#id == #t),
                    });
                }
                *e = q;
                return;
            }
        }
        match e {
            Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) => {
                let t = lit_tokens(&f.to_string());
                *e = parse_quote!(#t);
            }
            Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => {
                let s = i.to_string();
                if s.ends_with("f64") || s.ends_with("f32") {
                    let t = lit_tokens(&s);
                    *e = parse_quote!(#t);
                }
            }
            Expr::Cast(c) => {
                let ty = c.ty.to_token_stream().to_string();
                if ty == "f64" || ty == "f32" {
                    let inner = &c.expr;
                    *e = parse_quote!(::symrs::to_sym(#inner));
                } else if is_num_ty(&ty) {
                    let inner = &c.expr;
                    let t = &c.ty;
                    // compile-time constant integers keep the primitive cast
                    if self.in_const == 0 {
                        *e = parse_quote!(::symrs::cast::<#t, _>(#inner));
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_mut::visit_arm_mut(self, a);
        if self.sym {
            let mut fp = FloatPats(vec![]);
            fp.visit_pat_mut(&mut a.pat);
            for (id, t) in fp.0 {
                let g: Expr = match a.guard.take() {
                    Some((_, g)) => parse_quote!(#id == #t && #g),
                    None => parse_quote!(#id == #t),
                };
                a.guard = Some((Default::default(), Box::new(g)));
            }
        }
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        if p.segments.len() < 2 {
            return;
        }
        let h = p.segments[0].ident.to_string();
        if STUBS.contains(&h.as_str()) || (self.sym && h == "statrs") {
            let rest = p.clone();
            let mut np: syn::Path = parse_quote!(::symrs::stubs);
            for s in rest.segments {
                np.segments.push(s);
            }
            *p = np;
        } else if self.sym && h == "libm" {
            let mut np: syn::Path = parse_quote!(::symrs::libm_);
            for s in p.segments.iter().skip(1) {
                np.segments.push(s.clone());
            }
            *p = np;
        } else if self.sym
            && (h == "std" || h == "core")
            && (p.segments[1].ident == "f64" || p.segments[1].ident == "f32")
        {
            let mut np: syn::Path = parse_quote!(::symrs::f64m);
            for s in p.segments.iter().skip(2) {
                np.segments.push(s.clone());
            }
            *p = np;
        }
    }
    fn visit_item_use_mut(&mut self, u: &mut ItemUse) {
        if let Some(t) = self.map_use(&u.tree) {
            u.leading_colon = Some(Default::default());
            u.tree = t;
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let ts = m.tokens.clone();
        let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        if name != "macro_rules" && name != "s" && name != "matches" && name != "paste" {
            if let Ok(mut a) = parse2::<MacroArgs>(ts.clone()) {
                for e in a.0.iter_mut() {
                    self.visit_expr_mut(e);
                }
                m.tokens = a.0.to_token_stream();
                return;
            }
            if let Ok(mut r) = parse2::<Repeat>(ts.clone()) {
                self.visit_expr_mut(&mut r.0);
                self.visit_expr_mut(&mut r.1);
                let (a, b) = (r.0, r.1);
                m.tokens = quote!(#a; #b);
                return;
            }
        }
        m.tokens = self.tokens(ts);
    }
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        f.vis = pubv();
        let c = f.sig.constness.is_some();
        self.path.push(f.sig.ident.to_string());
        visit_mut::visit_item_fn_mut(self, f);
        self.path.pop();
        if !c {
            let n = f.sig.ident.to_string();
            self.marker(&mut f.block, &n);
        }
    }
    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        let ty = i.self_ty.to_token_stream().to_string().replace(' ', "");
        let ty = ty.split('<').next().unwrap_or("").to_string();
        let tr = i.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
        self.path.push(match &tr {
            Some(t) => format!("<{ty} as {t}>"),
            None => ty,
        });
        if tr.is_none() {
            for it in i.items.iter_mut() {
                match it {
                    ImplItem::Fn(f) => f.vis = pubv(),
                    ImplItem::Const(c) => c.vis = pubv(),
                    _ => {}
                }
            }
        }
        visit_mut::visit_item_impl_mut(self, i);
        self.path.pop();
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        let c = f.sig.constness.is_some();
        visit_mut::visit_impl_item_fn_mut(self, f);
        if !c {
            let n = f.sig.ident.to_string();
            self.marker(&mut f.block, &n);
        }
    }
    fn visit_item_trait_mut(&mut self, t: &mut ItemTrait) {
        t.vis = pubv();
        self.path.push(t.ident.to_string());
        visit_mut::visit_item_trait_mut(self, t);
        self.path.pop();
    }
    fn visit_trait_item_fn_mut(&mut self, f: &mut TraitItemFn) {
        visit_mut::visit_trait_item_fn_mut(self, f);
        if let Some(b) = &mut f.default {
            let n = f.sig.ident.to_string();
            self.marker(b, &n);
        }
    }
    fn visit_item_struct_mut(&mut self, s: &mut ItemStruct) {
        s.vis = pubv();
        for f in s.fields.iter_mut() {
            f.vis = pubv();
        }
        visit_mut::visit_item_struct_mut(self, s);
    }
    fn visit_item_enum_mut(&mut self, s: &mut ItemEnum) {
        s.vis = pubv();
        visit_mut::visit_item_enum_mut(self, s);
    }
    fn visit_item_type_mut(&mut self, s: &mut ItemType) {
        s.vis = pubv();
        visit_mut::visit_item_type_mut(self, s);
    }
    fn visit_item_mod_mut(&mut self, m: &mut ItemMod) {
        m.vis = pubv();
        self.path.push(m.ident.to_string());
        if let Some((_, items)) = &mut m.content {
            self.items(items);
        }
        self.path.pop();
    }
}
fn pubv() -> Visibility {
    parse_quote!(pub)
}
impl V {
    fn items(&mut self, items: &mut Vec<Item>) {
        items.retain(|i| !is_cfg_test(item_attrs(i)));
        for i in items.iter_mut() {
            if let Item::Const(c) = i {
                c.vis = pubv();
            }
            self.visit_item_mut(i);
        }
        if self.sym {
            items.insert(0, parse_quote!(#[allow(unused_imports)] use ::symrs::Sym as f64;));
            items.insert(1, parse_quote!(#[allow(unused_imports)] use ::symrs::Sym as f32;));
        }
    }
}

fn walk(d: &Path, base: &Path, out: &Path, sym: bool, krate: &str) {
    let mut ents: Vec<_> = std::fs::read_dir(d).unwrap().map(|e| e.unwrap().path()).collect();
    ents.sort();
    for p in ents {
        let rel = p.strip_prefix(base).unwrap();
        if p.is_dir() {
            if rel.to_str() == Some("bin") {
                continue;
            }
            walk(&p, base, out, sym, krate);
            continue;
        }
        let dst = out.join(rel);
        std::fs::create_dir_all(dst.parent().unwrap()).unwrap();
        if p.extension().map(|e| e != "rs").unwrap_or(true) {
            std::fs::copy(&p, &dst).unwrap();
            continue;
        }
        let src = std::fs::read_to_string(&p).unwrap();
        let mut f = match parse_file(&src) {
            Ok(f) => f,
            Err(e) => {
                eprintln!("symgen: {}: {e}", p.display());
                std::process::exit(2)
            }
        };
        let mut path: Vec<String> =
            rel.with_extension("").iter().map(|s| s.to_string_lossy().to_string()).collect();
        if path.last().map(|s| s == "mod" || s == "lib" || s == "main").unwrap_or(false) {
            path.pop();
        }
        let mut v = V { sym, krate: krate.to_string(), path, in_const: 0 };
        f.attrs.retain(|a| {
            let s = a.path().to_token_stream().to_string();
            !(s == "deny" || s == "warn" || s == "forbid" || s == "doc")
        });
        v.items(&mut f.items);
        let txt = f.into_token_stream().to_string();
        let head = if rel.to_str() == Some("lib.rs") || rel.to_str() == Some("main.rs") {
            "#![allow(warnings)]\n"
        } else {
            ""
        };
        // inner attributes must stay first
        let txt = format!("{head}{txt}");
        let same = std::fs::read_to_string(&dst).map(|o| o == txt).unwrap_or(false);
        if !same {
            std::fs::write(&dst, txt).unwrap();
        }
    }
    let _ = Punct::new('.', Spacing::Alone);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() != 5 {
        eprintln!("usage: symgen <sym|nat> <crate-name> <src-dir> <out-dir>");
        std::process::exit(2);
    }
    walk(Path::new(&a[3]), Path::new(&a[3]), Path::new(&a[4]), a[1] == "sym", &a[2]);
}
