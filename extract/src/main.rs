//! Mechanical extraction of functions of the repository into a Verus file.
//!
//!     vextract REPO OVERLAY OUT.rs OUT.json
//!     vextract --inventory REPO            list all functions of the repository
//!
//! The overlay names the items to take; their text is copied byte for byte from the source, except for
//! the edits described in DESIGN.md ("what the extraction changes"), which are implemented here in
//! `Edit` and nowhere else. Contracts, loop invariants and proof hints come from the overlay.

mod edit;
mod lits;
mod overlay;

use edit::{FnEditor, Mode};
use overlay::{Dir, Overlay};
use proc_macro2::TokenStream;
use quote::ToTokens;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::ops::Range;
use syn::spanned::Spanned;

pub fn span_of(t: &impl Spanned) -> Range<usize> {
    t.span().byte_range()
}

pub fn fail(msg: String) -> ! {
    println!("{}", serde_json::json!({"ok": false, "reason": msg}));
    std::process::exit(3);
}

struct File {
    src: String,
    ast: syn::File,
}

fn load(repo: &str, f: &str) -> File {
    let p = format!("{repo}/{f}");
    let src = std::fs::read_to_string(&p).unwrap_or_else(|e| fail(format!("{p}: {e}")));
    let ast = syn::parse_file(&src).unwrap_or_else(|e| fail(format!("{p}: {e}")));
    File { src, ast }
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().replace(' ', "") == "#[cfg(test)]")
}

/// Name of a self type without generics and references.
fn ty_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        syn::Type::Reference(r) => format!("&{}", ty_name(&r.elem)),
        _ => t.to_token_stream().to_string().replace(' ', ""),
    }
}

fn trait_name(p: &syn::Path) -> String {
    p.to_token_stream().to_string().replace(' ', "")
}

/// FNV-1a of the token text, comments and white space do not count.
fn hash(t: TokenStream) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in strip_docs(t).to_string().bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x100000001b3);
    }
    format!("{h:016x}")
}

fn strip_docs(t: TokenStream) -> TokenStream {
    // drop `#[doc = ...]`
    let v: Vec<_> = t.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        if let (proc_macro2::TokenTree::Punct(p), Some(proc_macro2::TokenTree::Group(g))) = (&v[i], v.get(i + 1)) {
            if p.as_char() == '#' && g.stream().to_string().starts_with("doc =") {
                i += 2;
                continue;
            }
        }
        match &v[i] {
            proc_macro2::TokenTree::Group(g) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), strip_docs(g.stream()));
                n.set_span(g.span());
                out.extend([proc_macro2::TokenTree::Group(n)]);
            }
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    out
}

enum Found<'a> {
    Free(&'a syn::ItemFn),
    Method(&'a syn::ItemImpl, &'a syn::ImplItemFn),
}

fn items_of<'a>(items: &'a [syn::Item], module: &str) -> Vec<&'a syn::Item> {
    if module.is_empty() {
        return items.iter().collect();
    }
    for i in items {
        if let syn::Item::Mod(m) = i {
            if m.ident == module {
                if let Some((_, its)) = &m.content {
                    return its.iter().collect();
                }
            }
        }
    }
    vec![]
}

/// `name`, `Type::name` or `<Type as Trait>::name`
fn find_fn<'a>(f: &'a File, path: &str) -> Option<Found<'a>> {
    // a function nested in another one: `outer/inner`
    if let Some((outer, inner)) = path.rsplit_once('/') {
        let b = match find_fn(f, outer)? {
            Found::Free(x) => &*x.block,
            Found::Method(_, x) => &x.block,
        };
        struct N<'b, 'n>(&'n str, Option<&'b syn::ItemFn>);
        impl<'b> syn::visit::Visit<'b> for N<'b, '_> {
            fn visit_item_fn(&mut self, i: &'b syn::ItemFn) {
                if i.sig.ident == self.0 {
                    self.1 = self.1.or(Some(i));
                }
            }
        }
        let mut v = N(inner, None);
        syn::visit::Visit::visit_block(&mut v, b);
        return v.1.map(Found::Free);
    }
    let (ty, tr, name) = split_path(path);
    for it in items_of(&f.ast.items, "") {
        match it {
            syn::Item::Fn(x) if ty.is_none() && x.sig.ident == name && !is_test(&x.attrs) => return Some(Found::Free(x)),
            syn::Item::Impl(im) if !is_test(&im.attrs) => {
                let Some(ty) = &ty else { continue };
                if ty_name(&im.self_ty) != *ty {
                    continue;
                }
                match (&im.trait_, &tr) {
                    (None, None) => {}
                    (Some((_, p, _)), Some(t)) if trait_name(p) == *t => {}
                    _ => continue,
                }
                for ii in &im.items {
                    if let syn::ImplItem::Fn(x) = ii {
                        if x.sig.ident == name && !is_test(&x.attrs) {
                            return Some(Found::Method(im, x));
                        }
                    }
                }
            }
            // a trait's provided methods
            _ => {}
        }
    }
    None
}

fn split_path(path: &str) -> (Option<String>, Option<String>, String) {
    if let Some(r) = path.strip_prefix('<') {
        let (ty, r) = r.split_once(" as ").unwrap_or_else(|| fail(format!("bad path {path}")));
        let (tr, name) = r.rsplit_once(">::").unwrap_or_else(|| fail(format!("bad path {path}")));
        (Some(ty.into()), Some(tr.into()), name.into())
    } else if let Some((ty, name)) = path.rsplit_once("::") {
        (Some(ty.into()), None, name.into())
    } else {
        (None, None, path.into())
    }
}

fn find_item<'a>(f: &'a File, kind: &str, name: &str) -> Option<&'a syn::Item> {
    f.ast.items.iter().find(|i| match i {
        syn::Item::Struct(x) => kind == "struct" && x.ident == name,
        syn::Item::Enum(x) => kind == "enum" && x.ident == name,
        syn::Item::Const(x) => kind == "const" && x.ident == name,
        syn::Item::Type(x) => kind == "type" && x.ident == name,
        syn::Item::Use(x) => kind == "use" && x.tree.to_token_stream().to_string().replace(' ', "") == name,
        _ => false,
    })
}

/// Attributes and visibilities are dropped, derives filtered.
fn emit_item(f: &File, it: &syn::Item, derives: &Option<Vec<String>>, subst: &[(String, String)]) -> String {
    let whole = span_of(it);
    let mut cuts: Vec<Range<usize>> = vec![];
    let mut derive: Vec<String> = vec![];
    fn attrs(cuts: &mut Vec<Range<usize>>, a: &[syn::Attribute]) {
        for a in a {
            cuts.push(span_of(a));
        }
    }
    fn fields(cuts: &mut Vec<Range<usize>>, fs: &syn::Fields) {
        for fl in fs {
            attrs(cuts, &fl.attrs);
            if !matches!(fl.vis, syn::Visibility::Inherited) {
                cuts.push(span_of(&fl.vis));
            }
        }
    }
    let (vis, at) = match it {
        syn::Item::Struct(x) => {
            fields(&mut cuts, &x.fields);
            (&x.vis, &x.attrs)
        }
        syn::Item::Enum(x) => {
            for v in &x.variants {
                attrs(&mut cuts, &v.attrs);
                fields(&mut cuts, &v.fields);
            }
            (&x.vis, &x.attrs)
        }
        syn::Item::Const(x) => (&x.vis, &x.attrs),
        syn::Item::Type(x) => (&x.vis, &x.attrs),
        syn::Item::Use(x) => (&x.vis, &x.attrs),
        _ => unreachable!(),
    };
    attrs(&mut cuts, at);
    if !matches!(vis, syn::Visibility::Inherited) {
        cuts.push(span_of(vis));
    }
    for a in at {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                derive.push(m.path.to_token_stream().to_string());
                Ok(())
            });
        }
    }
    let keep = match derives {
        Some(d) => d.clone(),
        None => {
            let mut d: Vec<String> = derive.into_iter().filter(|d| ["Clone", "Copy", "PartialEq", "Eq"].contains(&d.as_str())).collect();
            if d.iter().any(|d| d == "PartialEq") {
                d.push("Structural".into());
            }
            d
        }
    };
    let mut s = String::new();
    if !keep.is_empty() {
        let _ = writeln!(s, "#[derive({})]", keep.join(", "));
    }
    cuts.sort_by_key(|r| r.start);
    let mut p = whole.start;
    for c in cuts {
        if c.start >= p {
            s.push_str(&f.src[p..c.start]);
            p = c.end;
        }
    }
    s.push_str(&f.src[p..whole.end]);
    for (a, b) in subst {
        s = s.replace(a.as_str(), b);
    }
    s
}

fn callees(t: TokenStream) -> Vec<String> {
    // identifiers directly followed by a parenthesis (and macros)
    let mut v = vec![];
    fn go(t: TokenStream, v: &mut Vec<String>) {
        let x: Vec<_> = t.into_iter().collect();
        for i in 0..x.len() {
            if let proc_macro2::TokenTree::Ident(id) = &x[i] {
                if let Some(proc_macro2::TokenTree::Group(g)) = x.get(i + 1) {
                    if g.delimiter() == proc_macro2::Delimiter::Parenthesis {
                        v.push(id.to_string());
                    }
                }
            }
            if let proc_macro2::TokenTree::Group(g) = &x[i] {
                go(g.stream(), v);
            }
        }
    }
    go(t, &mut v);
    v.sort();
    v
}

fn str_literals(t: TokenStream, v: &mut Vec<String>) {
    for x in t {
        match x {
            proc_macro2::TokenTree::Group(g) => str_literals(g.stream(), v),
            proc_macro2::TokenTree::Literal(l) => {
                if let Ok(syn::Lit::Str(s)) = syn::parse_str::<syn::Lit>(&l.to_string()) {
                    v.push(s.value());
                }
            }
            _ => {}
        }
    }
}

fn inventory(repo: &str) {
    let mut out = vec![];
    for f in ["src/lex.rs", "src/attr.rs", "src/block.rs", "src/inline.rs", "src/lib.rs", "src/html.rs", "src/main.rs"] {
        let file = load(repo, f);
        for it in &file.ast.items {
            match it {
                syn::Item::Fn(x) if !is_test(&x.attrs) => out.push(serde_json::json!({"file": f, "fn": x.sig.ident.to_string()})),
                syn::Item::Impl(im) if !is_test(&im.attrs) => {
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(x) = ii {
                            let n = match &im.trait_ {
                                None => format!("{}::{}", ty_name(&im.self_ty), x.sig.ident),
                                Some((_, p, _)) => format!("<{} as {}>::{}", ty_name(&im.self_ty), trait_name(p), x.sig.ident),
                            };
                            out.push(serde_json::json!({"file": f, "fn": n}));
                        }
                    }
                }
                syn::Item::Trait(t) => {
                    for ti in &t.items {
                        if let syn::TraitItem::Fn(x) = ti {
                            if x.default.is_some() {
                                out.push(serde_json::json!({"file": f, "fn": format!("{}::{}", t.ident, x.sig.ident)}));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    println!("{}", serde_json::Value::Array(out));
}

/// All literals of the non-test code with their number of occurrences.
fn literals(repo: &str) {
    fn add(l: &str, m: &mut BTreeMap<String, usize>) {
        let v = match syn::parse_str::<syn::Lit>(l) {
            Ok(syn::Lit::Int(i)) => match i.base10_parse::<u64>() {
                Ok(n) => format!("i{n}"),
                _ => return,
            },
            Ok(syn::Lit::Byte(b)) => format!("s{:02x}", b.value()),
            Ok(syn::Lit::Char(c)) => format!("s{}", hex(c.value().to_string().as_bytes())),
            Ok(syn::Lit::Str(s)) => format!("s{}", hex(s.value().as_bytes())),
            Ok(syn::Lit::ByteStr(s)) => format!("s{}", hex(&s.value())),
            _ => return,
        };
        *m.entry(v).or_insert(0) += 1;
    }
    fn hex(b: &[u8]) -> String {
        b.iter().map(|b| format!("{b:02x}")).collect()
    }
    fn go(t: TokenStream, m: &mut BTreeMap<String, usize>) {
        for x in strip_docs(t) {
            match x {
                proc_macro2::TokenTree::Group(g) => go(g.stream(), m),
                proc_macro2::TokenTree::Literal(l) => add(&l.to_string(), m),
                _ => {}
            }
        }
    }
    let mut m = BTreeMap::new();
    for f in ["src/lex.rs", "src/attr.rs", "src/block.rs", "src/inline.rs", "src/lib.rs", "src/html.rs"] {
        let file = load(repo, f);
        for it in &file.ast.items {
            let test = match it {
                syn::Item::Mod(x) => is_test(&x.attrs),
                syn::Item::Fn(x) => is_test(&x.attrs),
                syn::Item::Impl(x) => is_test(&x.attrs),
                _ => false,
            };
            if !test {
                go(it.to_token_stream(), &mut m);
            }
        }
    }
    println!("{}", serde_json::json!(m));
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(String::as_str) == Some("--inventory") {
        return inventory(&args[2]);
    }
    if args.get(1).map(String::as_str) == Some("--literals") {
        return literals(&args[2]);
    }
    let [_, repo, overlay, out_rs, out_json] = &args[..] else {
        fail("usage: vextract REPO OVERLAY OUT.rs OUT.json".into())
    };
    let ov = Overlay::read(overlay);
    let mut files: BTreeMap<String, File> = BTreeMap::new();
    let mut cur = String::new();
    let mut out = String::new();
    let mut fns = vec![];
    let mut lines = vec![];
    let mut lits: Vec<String> = vec![];
    for d in &ov.dirs {
        match d {
            Dir::File(f) => {
                cur = f.clone();
                files.entry(f.clone()).or_insert_with(|| load(repo, f));
            }
            Dir::Raw(t) => {
                out.push_str(t);
                out.push('\n');
            }
            Dir::Item { kind, name, derives, subst } => {
                let f = &files[&cur];
                let it = find_item(f, kind, name).unwrap_or_else(|| fail(format!("{kind} {name} not found in {cur}")));
                out.push_str(&emit_item(f, it, derives, subst));
                out.push_str("\n\n");
                fns.push(serde_json::json!({"kind": kind, "file": cur, "name": name, "hash": hash(it.to_token_stream())}));
            }
            Dir::Fn(spec) => {
                let f = &files[&cur];
                // `fn#n`: the body of closure n of a function
                let (path, nth) = match spec.path.split_once('#') {
                    Some((p, n)) => (p, n.parse::<usize>().ok()),
                    None => (spec.path.as_str(), None),
                };
                let found = find_fn(f, path).unwrap_or_else(|| fail(format!("function {} not found in {cur}", spec.path)));
                let (sig, block, attrs, vis, im) = match &found {
                    Found::Free(x) => (&x.sig, &*x.block, &x.attrs, &x.vis, None),
                    Found::Method(im, x) => (&x.sig, &x.block, &x.attrs, &x.vis, Some(*im)),
                };
                let _ = (attrs, vis);
                let block = match nth {
                    None => block,
                    Some(n) => match edit::nth_closure(block, n).map(|c| &*c.body) {
                        Some(syn::Expr::Block(b)) => &b.block,
                        _ => fail(format!("closure {} not found in {cur}", spec.path)),
                    },
                };
                let mut modes = vec![Mode::Plain];
                if spec.stub {
                    modes = vec![Mode::Stub];
                } else if !spec.cases.is_empty() {
                    modes = vec![Mode::Stub, Mode::Exhaust];
                    modes.extend((0..spec.cases.len()).map(Mode::Case));
                }
                for mode in modes {
                let mut ed = FnEditor::new(&f.src, spec);
                if let Some(im) = im {
                    for ii in &im.items {
                        if let syn::ImplItem::Type(t) = ii {
                            ed.assoc.push((t.ident.to_string(), f.src[span_of(&t.ty)].to_string()));
                        }
                    }
                }
                if let Mode::Case(i) = mode {
                    ed.only.clone_from(&spec.cases[i].2);
                }
                let mut body = ed.function(sig, block, mode);
                // (arms left out take their literals with them)
                if let Ok(t) = body.parse::<TokenStream>() {
                    let mut present = vec![];
                    str_literals(t, &mut present);
                    ed.lits.retain(|l| present.contains(l));
                }
                if !ed.lits.is_empty() {
                    // before the end of the signature's block: facts about the literals
                    for l in &ed.lits {
                        if !lits.contains(l) {
                            lits.push(l.clone());
                            out.push_str(&lits::lemma(lits.len() - 1, l));
                        }
                    }
                    let names: Vec<String> = ed.lits.iter().map(|l| format!("lit_{}", lits.iter().position(|x| x == l).unwrap())).collect();
                    body = body.replace("/*lits*/", &format!("broadcast use {{{}}};", names.join(", ")));
                }
                let start_line = f.src[..span_of(sig).start].matches('\n').count() + 1;
                let out_line = out.matches('\n').count() + 1;
                match im {
                    Some(im) => {
                        let g = &im.generics;
                        let gtext = if g.params.is_empty() { String::new() } else { f.src[span_of(&g.lt_token).start..span_of(&g.gt_token).end].to_string() };
                        let ty = spec.self_ty.clone().unwrap_or_else(|| f.src[span_of(&im.self_ty)].to_string());
                        let wh = g.where_clause.as_ref().map_or(String::new(), |w| f.src[span_of(w)].to_string());
                        let _ = writeln!(out, "impl{gtext} {ty} {wh} {{\n{body}\n}}\n");
                    }
                    None => {
                        let _ = writeln!(out, "{body}\n");
                    }
                }
                let end_line = out.matches('\n').count() + 1;
                lines.push((out_line, end_line, spec.path.clone()));
                let mut spec_name = spec.path.clone();
                match mode {
                    Mode::Plain | Mode::Stub => {}
                    Mode::Exhaust => spec_name.push_str("__cases"),
                    Mode::Case(i) => spec_name.push_str(&format!("__{}", spec.cases[i].0)),
                }
                let mut toks = TokenStream::new();
                sig.to_tokens(&mut toks);
                block.to_tokens(&mut toks);
                fns.push(serde_json::json!({
                    "kind": if spec.stub || spec.attrs.iter().any(|a| a.contains("external_body")) { "contract" } else { "fn" }, "file": cur, "name": spec_name, "line": start_line, "case_of": if spec_name == spec.path { None } else { Some(spec.path.clone()) },
                    "out_lines": [out_line, end_line],
                    "hash": hash(toks), "loops": ed.loops, "callees": callees(block.to_token_stream()),
                    "edits": ed.notes,
                }));
                }
            }
        }
    }
    std::fs::write(out_rs, &out).unwrap();
    std::fs::write(out_json, serde_json::to_string_pretty(&serde_json::json!({"items": fns})).unwrap()).unwrap();
    println!("{}", serde_json::json!({"ok": true, "items": fns.len()}));
}
