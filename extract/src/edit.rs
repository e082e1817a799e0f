//! The edits made to a function's text. Everything not mentioned here is copied verbatim.

use crate::overlay::FnSpec;
use crate::{fail, span_of};
use quote::ToTokens;
use std::ops::Range;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

pub struct FnEditor<'a> {
    src: &'a str,
    spec: &'a FnSpec,
    /// Text inserted at a position.
    ins: Vec<(usize, String)>,
    /// Replaced ranges, disjoint.
    reps: Vec<(Range<usize>, String)>,
    pub loops: usize,
    closures: usize,
    tmp: usize,
    pub notes: Vec<String>,
    pub assoc: Vec<(String, String)>,
    /// String literals of the function (opt lits).
    pub lits: Vec<String>,
    /// Variants of this case (empty: all).
    pub only: Vec<String>,
    /// Closures whose value is the value of the function.
    tails: Vec<Range<usize>>,
}

/// Finds `return` or `?` (not counting inner closures and functions).
struct Leaves(bool);
impl<'a> Visit<'a> for Leaves {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    fn visit_item_fn(&mut self, _: &'a syn::ItemFn) {}
}

fn leaves(e: &syn::Expr) -> bool {
    let mut l = Leaves(false);
    l.visit_expr(e);
    l.0
}

/// `if c { return v; }`: the return statement and v.
fn early_return(s: &syn::Stmt) -> Option<(&syn::Stmt, &syn::Expr)> {
    let syn::Stmt::Expr(syn::Expr::If(i), _) = s else { return None };
    if i.else_branch.is_some() || i.then_branch.stmts.len() != 1 || leaves(&i.cond) {
        return None;
    }
    match &i.then_branch.stmts[0] {
        st @ syn::Stmt::Expr(syn::Expr::Return(r), _) => r.expr.as_ref().filter(|v| !leaves(v)).map(|v| (st, &**v)),
        _ => None,
    }
}

/// The body of the n-th closure of a block, in source order.
pub fn nth_closure<'b>(b: &'b syn::Block, n: usize) -> Option<&'b syn::ExprClosure> {
    struct N<'b>(usize, Option<&'b syn::ExprClosure>);
    impl<'b> Visit<'b> for N<'b> {
        fn visit_expr_closure(&mut self, c: &'b syn::ExprClosure) {
            if self.0 == 0 {
                self.1 = self.1.or(Some(c));
            }
            self.0 = self.0.wrapping_sub(1);
            visit::visit_expr_closure(self, c);
        }
    }
    let mut v = N(n, None);
    v.visit_block(b);
    v.1
}

/// Closures of `x.or_else(closure)` and the like in tail position.
fn tail_closures(e: &syn::Expr, v: &mut Vec<Range<usize>>) {
    fn block(b: &syn::Block, v: &mut Vec<Range<usize>>) {
        if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() {
            tail_closures(e, v);
        }
    }
    match e {
        syn::Expr::MethodCall(m) if ["or_else", "unwrap_or_else", "and_then", "map_or_else", "map_or", "is_some_and", "is_none_or"].contains(&m.method.to_string().as_str()) => {
            for a in &m.args {
                if let syn::Expr::Closure(c) = a {
                    v.push(span_of(c));
                    tail_closures(&c.body, v);
                }
            }
        }
        syn::Expr::Block(b) => block(&b.block, v),
        syn::Expr::If(i) => {
            block(&i.then_branch, v);
            if let Some((_, e)) = &i.else_branch {
                tail_closures(e, v);
            }
        }
        syn::Expr::Match(m) => {
            for a in &m.arms {
                tail_closures(&a.body, v);
            }
        }
        syn::Expr::Paren(p) => tail_closures(&p.expr, v),
        _ => {}
    }
}

/// What in an expression could change more than the variables declared in it, or leave it.
fn changes(e: &syn::Expr) -> Option<String> {
    struct C(Vec<String>, Option<String>);
    fn root(e: &syn::Expr) -> Option<String> {
        match e {
            syn::Expr::Field(f) => root(&f.base),
            syn::Expr::Index(i) => root(&i.expr),
            syn::Expr::Paren(p) => root(&p.expr),
            syn::Expr::Reference(r) => root(&r.expr),
            syn::Expr::Unary(u) => root(&u.expr),
            syn::Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
            _ => None,
        }
    }
    impl<'b> Visit<'b> for C {
        fn visit_pat_ident(&mut self, p: &'b syn::PatIdent) {
            self.0.push(p.ident.to_string());
            visit::visit_pat_ident(self, p);
        }
        fn visit_expr(&mut self, e: &'b syn::Expr) {
            let bad = match e {
                syn::Expr::Return(_) | syn::Expr::Try(_) | syn::Expr::Break(_) | syn::Expr::Unsafe(_) => Some("it may leave the expression".to_string()),
                syn::Expr::Assign(a) => root(&a.left).filter(|r| self.0.contains(r)).is_none().then(|| "assignment".to_string()),
                syn::Expr::Binary(b) if { let t = b.op.to_token_stream().to_string(); t.ends_with('=') && !["==", "!=", "<=", ">="].contains(&t.as_str()) } =>
                    root(&b.left).filter(|r| self.0.contains(r)).is_none().then(|| "assignment".to_string()),
                syn::Expr::Reference(r) if r.mutability.is_some() => root(&r.expr).filter(|r| self.0.contains(r)).is_none().then(|| "&mut".to_string()),
                // methods of what is not declared here: those known to read only
                syn::Expr::MethodCall(m) => match root(&m.receiver) {
                    Some(r) if !self.0.contains(&r) => (!["iter", "len", "is_empty", "clone", "as_bytes", "into", "get", "front", "back"].contains(&m.method.to_string().as_str())).then(|| format!("call of {}", m.method)),
                    _ => None,
                },
                syn::Expr::Call(c) => c.args.iter().any(|a| root(a).as_deref() == Some("self")).then(|| "self is passed on".to_string()),
                syn::Expr::Macro(m) => (!m.mac.path.is_ident("matches")).then(|| "macro".to_string()),
                _ => None,
            };
            if self.1.is_none() {
                self.1 = bad;
            }
            visit::visit_expr(self, e);
        }
    }
    let mut c = C(vec![], None);
    c.visit_expr(e);
    c.1
}

/// A string literal token of the value.
pub fn lit(v: &str) -> String {
    let mut t = String::from("\"");
    for c in v.chars() {
        match c {
            '"' | '\\' => {
                t.push('\\');
                t.push(c);
            }
            ' '..='~' => t.push(c),
            c => t.push_str(&format!("\\u{{{:x}}}", c as u32)),
        }
    }
    t.push('"');
    t
}

/// Positions of anchors, collected before any edit.
#[derive(Default)]
struct Anchors {
    values: Vec<Range<usize>>,
    stmts: Vec<Range<usize>>,
    calls: Vec<(String, Range<usize>)>,
    lets: Vec<(String, Range<usize>)>,
    loops: Vec<(usize, Range<usize>, Range<usize>)>,
    arms: Vec<(Range<usize>, bool)>,
    ifs: Vec<(Range<usize>, Option<Range<usize>>, Range<usize>)>,
    assigns: Vec<(String, Range<usize>)>,
    nloops: usize,
    opts: Vec<String>,
    tails: Vec<Range<usize>>,
    returns: Vec<Range<usize>>,
}

/// `t` with the identifier `a` as `b`.
fn word(t: &str, a: &str, b: &str) -> String {
    let id = |c: char| c.is_alphanumeric() || c == '_';
    let mut s = String::new();
    let mut p = 0;
    for (i, _) in t.match_indices(a) {
        if i >= p && !t[..i].ends_with(id) && !t[i + a.len()..].starts_with(id) {
            s.push_str(&t[p..i]);
            s.push_str(b);
            p = i + a.len();
        }
    }
    s.push_str(&t[p..]);
    s
}

/// The closure of `std::iter::from_fn(closure)` and the range of its body.
fn from_fn<'a>(opts: &[String], c: &'a syn::ExprCall) -> Option<(&'a syn::ExprClosure, Range<usize>)> {
    let syn::Expr::Path(p) = &*c.func else { return None };
    if p.path.segments.last()?.ident != "from_fn" || !opts.iter().any(|o| o == "from_fn") {
        return None;
    }
    match c.args.first() {
        Some(syn::Expr::Closure(f)) if f.inputs.is_empty() => Some((f, span_of(&*f.body))),
        _ => None,
    }
}

fn is_iter_loop(opts: &[String], m: &syn::ExprMethodCall) -> bool {
    let n = m.method.to_string();
    matches!(n.as_str(), "any" | "all" | "position" | "rposition" | "find" | "rfind" | "count" | "for_each" | "try_for_each" | "last" | "filter_last" | "extend")
        && opts.iter().any(|o| *o == format!("iter_{n}"))
        || n == "find" && opts.iter().any(|o| o == "str_find")
}

impl<'ast> Visit<'ast> for Anchors {
    fn visit_item_fn(&mut self, i: &'ast syn::ItemFn) {
        if !self.opts.iter().any(|o| o == "hoist") {
            visit::visit_item_fn(self, i);
        }
    }
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        self.stmts.push(span_of(s));
        if let syn::Stmt::Local(l) = s {
            let mut names = vec![];
            pat_idents(&l.pat, &mut names);
            for n in names {
                self.lets.push((n, span_of(s)));
            }
        }
        visit::visit_stmt(self, s);
        self.stmts.pop();
    }
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        let st = self.stmts.last().cloned().unwrap_or(0..0);
        match e {
            syn::Expr::MethodCall(m) => {
                if is_iter_loop(&self.opts, m) {
                    // the body of a for_each closure becomes the body of the loop
                    let body = match (m.method.to_string().as_str(), m.args.first()) {
                        ("for_each", Some(syn::Expr::Closure(c))) => match &*c.body {
                            syn::Expr::Block(b) => span_of(b),
                            _ => 0..0,
                        },
                        _ => 0..0,
                    };
                    self.loops.push((self.nloops, st.clone(), body));
                    self.nloops += 1;
                }
                visit::visit_expr(self, e);
                self.calls.push((m.method.to_string(), st));
                return;
            }
            syn::Expr::Call(c) => {
                if let Some((_, st_)) = from_fn(&self.opts, c) {
                    self.loops.push((self.nloops, st.clone(), st_));
                    self.nloops += 1;
                }
                visit::visit_expr(self, e);
                if let syn::Expr::Path(p) = &*c.func {
                    self.calls.push((p.path.segments.last().unwrap().ident.to_string(), st));
                }
                return;
            }
            syn::Expr::While(l) => {
                self.loops.push((self.nloops, st, span_of(&l.body)));
                self.nloops += 1;
            }
            syn::Expr::Loop(l) => {
                self.loops.push((self.nloops, st, span_of(&l.body)));
                self.nloops += 1;
            }
            syn::Expr::ForLoop(l) => {
                self.loops.push((self.nloops, st, span_of(&l.body)));
                self.nloops += 1;
            }
            syn::Expr::If(i) => {
                let el = i.else_branch.as_ref().map(|(_, e)| span_of(e));
                self.ifs.push((span_of(&i.then_branch), el, st));
            }
            syn::Expr::Match(m) => {
                self.visit_expr(&m.expr);
                for a in &m.arms {
                    self.arms.push((span_of(&a.body), matches!(&*a.body, syn::Expr::Block(b) if b.label.is_none())));
                    visit::visit_arm(self, a);
                }
                return;
            }
            syn::Expr::Assign(a) => {
                self.assigns.push((a.left.to_token_stream().to_string().replace(' ', ""), st));
            }
            syn::Expr::Binary(b) if matches!(b.op, syn::BinOp::AddAssign(_) | syn::BinOp::SubAssign(_) | syn::BinOp::BitAndAssign(_) | syn::BinOp::MulAssign(_)) => {
                self.assigns.push((b.left.to_token_stream().to_string().replace(' ', ""), st));
            }
            // its values are not those of the function
            syn::Expr::Closure(c) if !self.tails.contains(&span_of(c)) => {
                let n = self.values.len();
                visit::visit_expr(self, e);
                self.values.truncate(n);
                return;
            }
            syn::Expr::Return(r) => {
                self.returns.push(st);
                self.values.extend(r.expr.iter().map(|e| span_of(&**e)));
            }
            _ => {}
        }
        visit::visit_expr(self, e);
    }
}

fn pat_idents(p: &syn::Pat, v: &mut Vec<String>) {
    struct V<'a>(&'a mut Vec<String>);
    impl<'ast> Visit<'ast> for V<'_> {
        fn visit_pat_ident(&mut self, i: &'ast syn::PatIdent) {
            self.0.push(i.ident.to_string());
            visit::visit_pat_ident(self, i);
        }
        fn visit_field_pat(&mut self, i: &'ast syn::FieldPat) {
            visit::visit_field_pat(self, i);
        }
    }
    V(v).visit_pat(p);
}

fn is_range_index(e: &syn::Expr) -> Option<(&syn::Expr, &syn::ExprRange)> {
    match e {
        syn::Expr::Index(i) => match &*i.index {
            syn::Expr::Range(g) => Some((&i.expr, g)),
            _ => None,
        },
        _ => None,
    }
}

/// `x.iter_mut()` or `x.iter_mut().skip(n)`: the place and the number.
fn is_iter_mut(e: &syn::Expr) -> Option<(&syn::Expr, Option<&syn::Expr>)> {
    let syn::Expr::MethodCall(m) = e else { return None };
    if m.method == "iter_mut" && m.args.is_empty() {
        return Some((&m.receiver, None));
    }
    if m.method == "skip" && m.args.len() == 1 {
        if let syn::Expr::MethodCall(r) = &*m.receiver {
            if r.method == "iter_mut" && r.args.is_empty() {
                return Some((&r.receiver, Some(&m.args[0])));
            }
        }
    }
    None
}

/// Receiver and argument of `recv.name(arg)`.
fn is_call<'x>(e: &'x syn::Expr, name: &str) -> Option<(&'x syn::Expr, &'x syn::Expr)> {
    match e {
        syn::Expr::MethodCall(m) if m.method == name && m.args.len() == 1 => Some((&m.receiver, &m.args[0])),
        _ => None,
    }
}

/// `a.iter().copied().chain(std::iter::repeat(d)).flat_map(|x| [x, x].into_iter())`: each element of `a` twice, then `d`.
fn is_doubled(e: &syn::Expr) -> Option<(&syn::Expr, &syn::Expr)> {
    let (r, f) = is_call(e, "flat_map")?;
    let syn::Expr::Closure(c) = f else { return None };
    let p = c.inputs.first()?.to_token_stream().to_string();
    if c.inputs.len() != 1 || c.body.to_token_stream().to_string().replace(' ', "") != format!("[{p},{p}].into_iter()") {
        return None;
    }
    let (r, d) = is_call(r, "chain")?;
    let syn::Expr::Call(d) = d else { return None };
    if d.func.to_token_stream().to_string().replace(' ', "") != "std::iter::repeat" || d.args.len() != 1 {
        return None;
    }
    let syn::Expr::MethodCall(cp) = r else { return None };
    let syn::Expr::MethodCall(it) = &*cp.receiver else { return None };
    (cp.method == "copied" && it.method == "iter" && it.args.is_empty()).then_some((&*it.receiver, &d.args[0]))
}

/// `std::iter::once(a).chain(q.iter().take(k).cloned())`
fn is_once_chain(e: &syn::Expr) -> Option<(&syn::Expr, &syn::Expr, &syn::Expr)> {
    let (l, r) = is_call(e, "chain")?;
    let syn::Expr::Call(c) = l else { return None };
    if c.func.to_token_stream().to_string().replace(' ', "") != "std::iter::once" || c.args.len() != 1 {
        return None;
    }
    let syn::Expr::MethodCall(cl) = r else { return None };
    let (it, k) = is_call(&cl.receiver, "take")?;
    let syn::Expr::MethodCall(it) = it else { return None };
    (cl.method == "cloned" && it.method == "iter" && it.args.is_empty()).then_some((&c.args[0], &*it.receiver, k))
}

/// `std::iter::repeat_n(a, m).chain(std::iter::repeat_n(b, n))`
fn is_repeats(e: &syn::Expr) -> Option<(&syn::Expr, &syn::Expr, &syn::Expr, &syn::Expr)> {
    fn rep(e: &syn::Expr) -> Option<(&syn::Expr, &syn::Expr)> {
        let syn::Expr::Call(c) = e else { return None };
        let f = c.func.to_token_stream().to_string().replace(' ', "");
        (f.ends_with("iter::repeat_n") && c.args.len() == 2).then(|| (&c.args[0], &c.args[1]))
    }
    let (l, r) = is_call(e, "chain")?;
    let (a, m) = rep(l)?;
    let (b, n) = rep(r)?;
    Some((a, m, b, n))
}

/// `(a..)`
fn range_from(e: &syn::Expr) -> Option<&syn::Expr> {
    let syn::Expr::Paren(p) = e else { return None };
    match &*p.expr {
        syn::Expr::Range(g) if g.end.is_none() => g.start.as_deref(),
        _ => None,
    }
}

/// The pattern binds a variable.
fn binds(p: &syn::Pat) -> bool {
    struct B(bool);
    impl<'a> Visit<'a> for B {
        fn visit_pat_ident(&mut self, i: &'a syn::PatIdent) {
            self.0 |= i.ident.to_string().starts_with(|c: char| c.is_ascii_lowercase());
        }
    }
    let mut b = B(false);
    b.visit_pat(p);
    b.0
}

/// Alternatives of a pattern with a top-level or `name @ (A | B)` alternation.
fn alternatives(src: &str, p: &syn::Pat) -> Option<Vec<String>> {
    match p {
        syn::Pat::Or(o) => Some(o.cases.iter().map(|c| src[span_of(c)].to_string()).collect()),
        syn::Pat::Paren(q) => alternatives(src, &q.pat),
        syn::Pat::Ident(i) => {
            let (_, sub) = i.subpat.as_ref()?;
            let a = alternatives(src, sub)?;
            Some(a.into_iter().map(|x| format!("{} @ {x}", i.ident)).collect())
        }
        _ => None,
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Plain,
    Stub,
    Exhaust,
    Case(usize),
}

impl<'a> FnEditor<'a> {
    pub fn new(src: &'a str, spec: &'a FnSpec) -> Self {
        Self { src, spec, ins: vec![], reps: vec![], loops: 0, closures: 0, tmp: 100, notes: vec![], assoc: vec![], lits: vec![], only: vec![], tails: vec![] }
    }

    /// The arm cannot be reached in this case (claimed; the arm becomes a call that requires false).
    fn pruned(&self, p: &syn::Pat) -> bool {
        struct V(Vec<String>);
        impl<'ast> Visit<'ast> for V {
            fn visit_path(&mut self, p: &'ast syn::Path) {
                let n = p.segments.len();
                if n >= 2 && ["Event", "Container"].contains(&p.segments[n - 2].ident.to_string().as_str()) {
                    self.0.push(p.segments[n - 1].ident.to_string());
                }
            }
        }
        if self.only.is_empty() {
            return false;
        }
        let mut v = V(vec![]);
        v.visit_pat(p);
        // by level: events and containers
        !v.0.is_empty() && !v.0.iter().any(|x| self.only.contains(x))
    }

    /// The same for the arms of a large match over characters: `only c35,_` keeps the arms for `#` and the wildcard.
    fn pruned_char(&self, p: &syn::Pat) -> bool {
        struct V(Vec<String>);
        impl<'ast> Visit<'ast> for V {
            fn visit_lit_char(&mut self, c: &'ast syn::LitChar) {
                self.0.push(format!("c{}", c.value() as u32));
            }
        }
        if !self.only.iter().any(|x| x == "_" || x.starts_with('c') && x[1..].parse::<u32>().is_ok()) {
            return false;
        }
        if matches!(p, syn::Pat::Wild(_)) {
            return !self.only.iter().any(|x| x == "_");
        }
        let mut v = V(vec![]);
        v.visit_pat(p);
        !v.0.is_empty() && !v.0.iter().any(|x| self.only.contains(x))
    }

    fn note(&mut self, s: &str) {
        if !self.notes.iter().any(|n| n == s) {
            self.notes.push(s.into());
        }
    }

    fn opt(&self, s: &str) -> bool {
        self.spec.opts.iter().any(|o| o == s)
    }

    fn fresh(&mut self) -> usize {
        self.tmp += 1;
        self.tmp
    }

    fn insert(&mut self, pos: usize, s: impl Into<String>) {
        self.ins.push((pos, s.into()));
    }

    fn render(&self, r: Range<usize>, incl: bool) -> String {
        let mut ev: Vec<(usize, u8, usize, &str, usize)> = vec![];
        for (k, (p, t)) in self.ins.iter().enumerate() {
            let inside = if incl { r.start <= *p && *p <= r.end } else { r.start < *p && *p < r.end };
            if inside {
                ev.push((*p, 0, k, t, *p));
            }
        }
        for (k, (q, t)) in self.reps.iter().enumerate() {
            if r.start <= q.start && q.end <= r.end {
                ev.push((q.start, 1, k, t, q.end));
            }
        }
        ev.sort_by_key(|e| (e.0, e.1, e.2));
        let mut s = String::new();
        let mut p = r.start;
        for (st, _, _, t, en) in ev {
            if st < p {
                continue;
            }
            s.push_str(&self.src[p..st]);
            s.push_str(t);
            p = en;
        }
        s.push_str(&self.src[p..r.end]);
        s
    }

    /// Render a range and forget the edits inside, to be used in a replacement of a larger range.
    fn take(&mut self, r: Range<usize>) -> String {
        self.take_(r, false)
    }

    fn take_(&mut self, r: Range<usize>, incl: bool) -> String {
        let s = self.render(r.clone(), incl);
        self.ins.retain(|(p, _)| if incl { !(r.start <= *p && *p <= r.end) } else { !(r.start < *p && *p < r.end) });
        self.reps.retain(|(q, _)| !(r.start <= q.start && q.end <= r.end));
        s
    }

    fn replace(&mut self, r: Range<usize>, t: String) {
        self.ins.retain(|(p, _)| !(r.start < *p && *p < r.end));
        self.reps.retain(|(q, _)| !(r.start <= q.start && q.end <= r.end));
        self.reps.push((r, t));
    }

    fn loop_spec(&self, n: usize) -> String {
        self.spec.loops.iter().filter(|l| l.n == n).map(|l| format!("\n{}", l.text)).collect::<String>()
    }

    pub fn function(&mut self, sig: &syn::Signature, block: &syn::Block, mode: Mode) -> String {
        if self.opt("lits") {
            self.ins.push((span_of(block).start + 1, "\n/*lits*/".into()));
        }
        let ty = match (&self.spec.ret, &sig.output) {
            (Some(r), _) if r.contains(':') => format!(": {}", r.split_once(':').unwrap().1.trim()),
            (_, syn::ReturnType::Type(_, ty)) if self.spec.params.is_empty() => format!(": {}", &self.src[span_of(ty)]),
            _ => String::new(),
        };
        if let Some(syn::Stmt::Expr(e, None)) = block.stmts.last() {
            tail_closures(e, &mut self.tails);
        }
        self.hints(block, &ty);
        self.visit_block(block);
        for l in &self.spec.loops {
            if l.n >= self.loops {
                fail(format!("loop {} not found in {}", l.n, self.spec.path));
            }
        }
        let mut s = String::new();
        match mode {
            // proved case by case
            Mode::Stub => s.push_str("#[verifier::external_body]\n"),
            Mode::Exhaust => s.push_str("#[verifier::exec_allows_no_decreases_clause]\n"),
            _ => {
                for a in &self.spec.attrs {
                    s.push_str(a);
                    s.push('\n');
                }
            }
        }
        let sp = span_of(sig);
        let head_end = match &sig.output {
            syn::ReturnType::Default => sig.paren_token.span.close().byte_range().end,
            syn::ReturnType::Type(arrow, _) => span_of(arrow).start,
        };
        let mut head = self.src[sp.start..head_end].to_string();
        if !self.spec.params.is_empty() {
            let case = match mode {
                Mode::Exhaust => "__cases".to_string(),
                Mode::Case(i) => format!("__{}", self.spec.cases[i].0),
                _ => String::new(),
            };
            head = format!("fn {}{case}({})", self.spec.rename.clone().unwrap_or_else(|| fail("rename missing".into())), self.spec.params);
        }
        let name = match mode {
            Mode::Exhaust => Some(format!("{}__cases", sig.ident)),
            Mode::Case(i) => Some(format!("{}__{}", sig.ident, self.spec.cases[i].0)),
            _ => self.spec.rename.clone(),
        };
        if let (Some(n), true) = (&name, self.spec.params.is_empty()) {
            let id = span_of(&sig.ident);
            head = format!("{}{}{}", &self.src[sp.start..id.start], n, &self.src[id.end..head_end]);
        }
        s.push_str(&head);
        if let (Some(r), false) = (&self.spec.ret, self.spec.params.is_empty()) {
            s.push_str(&format!("-> ({r})"));
        } else if let syn::ReturnType::Type(_, ty) = &sig.output {
            let t = &self.src[span_of(ty)];
            let t = if t == "ControlFlow" || !t.is_empty() { t } else { t };
            match &self.spec.ret {
                // another type, of what a function emitted otherwise gives
                Some(r) if r.contains(':') => {
                    self.notes.push(format!("return type {t} emitted as {r}"));
                    s.push_str(&format!("-> ({r})"));
                }
                Some(r) => s.push_str(&format!("-> ({r}: {t})")),
                None => s.push_str(&format!("-> {t}")),
            }
        }
        if let Some(w) = &sig.generics.where_clause {
            s.push_str(&format!("\n    {}", &self.src[span_of(w)]));
        }
        s.push('\n');
        let mut req = self.spec.req.clone();
        if let Mode::Case(i) = mode {
            req.push_str(&format!("        {},\n", self.spec.cases[i].1));
        }
        for (k, t) in [("requires", &req), ("ensures", &self.spec.ens), ("decreases", &self.spec.dec)] {
            if !t.trim().is_empty() && !(mode == Mode::Exhaust && k == "decreases") {
                s.push_str(&format!("    {k}\n{t}"));
            }
        }
        s.push_str(&self.spec.sig);
        if mode == Mode::Exhaust {
            s.push_str("{\n    proof { assert(");
            s.push_str(&self.spec.cases.iter().map(|c| format!("({})", c.1)).collect::<Vec<_>>().join("\n        || "));
            s.push_str("); }\n    loop {}\n}\n");
            for (n, t) in &self.assoc {
                s = s.replace(&format!("Self::{n}"), t);
            }
            for (a, b) in &self.spec.subst {
                s = s.replace(a.as_str(), b);
            }
            return s;
        }
        if self.opt("lits") {
            struct L(Vec<String>);
            impl<'ast> Visit<'ast> for L {
                fn visit_lit_str(&mut self, l: &'ast syn::LitStr) {
                    self.0.push(l.value());
                }
            }
            let mut l = L(vec![]);
            l.visit_block(block);
            self.lits.extend(l.0);
            self.lits.sort();
            self.lits.dedup();
        }
        // the body of a stub is not looked at
        let external = self.spec.attrs.iter().any(|a| a.contains("external_body"));
        let mut body = if self.spec.stub { "{ /* contract only */ unimplemented!() }".to_string() } else if external { "{ unimplemented!() }".to_string() } else { self.render(span_of(block), true) };
        if let Some(syn::FnArg::Receiver(r)) = sig.inputs.first() {
            if let (Some(m), None) = (&r.mutability, &r.reference) {
                // `mut self` is not accepted
                let m = span_of(m);
                let from = format!("{} self", &self.src[m.clone()]);
                s = s.replacen(&from, "self", 1);
                body = format!("{{ let mut __me = self; {}", word(&body[1..], "self", "__me"));
                self.note("mut self emitted as self, moved to a variable");
            }
        }
        s.push_str(&body);
        for (n, t) in &self.assoc {
            s = s.replace(&format!("Self::{n}"), t);
        }
        for (a, b) in &self.spec.subst {
            if !s.contains(a.as_str()) && self.only.is_empty() && !self.spec.stub && !external {
                fail(format!("text to substitute {a:?} not found in {}", self.spec.path));
            }
            s = s.replace(a.as_str(), b);
            self.notes.push(format!("text {a:?} emitted as {b:?}"));
        }
        s
    }

    fn hints(&mut self, block: &syn::Block, ty: &str) {
        let mut a = Anchors { opts: self.spec.opts.clone(), tails: self.tails.clone(), ..Default::default() };
        a.visit_block(block);
        let b = span_of(block);
        let tail = |stmts: &[syn::Stmt], r: &Range<usize>| match stmts.last() {
            Some(s @ syn::Stmt::Expr(_, None)) => span_of(s).start,
            Some(s @ syn::Stmt::Macro(m)) if m.semi_token.is_none() => span_of(s).start,
            _ => r.end - 1,
        };
        for h in &self.spec.hints {
            let w: Vec<&str> = h.anchor.iter().map(String::as_str).collect();
            let lost = || -> ! { fail(format!("anchor {:?} not found in {}", h.anchor.join(" "), self.spec.path)) };
            let num = |s: Option<&&str>| s.and_then(|s| s.parse::<usize>().ok());
            let text = format!("\n{}", h.text);
            match w[0] {
                "start" => self.ins.push((b.start + 1, text)),
                "end" => self.ins.push((tail(&block.stmts, &b), text)),
                // wherever the function is left: the value is named first
                "exit" => {
                    let mut vs = a.values.clone();
                    if let Some(syn::Stmt::Expr(e, None)) = block.stmts.last() {
                        vs.push(span_of(e));
                    }
                    for v in vs {
                        self.ins.push((v.start, format!(" {{ let __rv{ty} = ")));
                        self.ins.push((v.end, format!(";{text} __rv }}")));
                    }
                }
                "loop" => {
                    let n = num(w.get(1)).unwrap_or_else(|| lost());
                    let (_, st, body) = a.loops.iter().find(|l| l.0 == n).unwrap_or_else(|| lost());
                    match w.get(2) {
                        Some(&"before") => self.ins.push((st.start, text)),
                        Some(&"after") => self.ins.push((st.end, text)),
                        Some(&"start") if body.end > 0 => self.ins.push((body.start + 1, text)),
                        Some(&"end") if body.end > 0 => self.ins.push((body.end - 1, text)),
                        // inside generated loops
                        Some(&"start") => self.ins.push((usize::MAX - n, text)),
                        Some(&"end") => self.ins.push((usize::MAX - 100_000 - n, text)),
                        _ => lost(),
                    }
                }
                "let" | "call" | "assign" => {
                    let list = match w[0] {
                        "let" => &a.lets,
                        "call" => &a.calls,
                        _ => &a.assigns,
                    };
                    let (k, pos) = match num(w.get(2)) {
                        Some(k) => (k, w.get(3)),
                        None => (0, w.get(2)),
                    };
                    let st = list.iter().filter(|(n, _)| n == w[1]).nth(k).map(|x| x.1.clone()).unwrap_or_else(|| lost());
                    match pos {
                        Some(&"before") => self.ins.push((st.start, text)),
                        Some(&"after") | None => self.ins.push((st.end, text)),
                        _ => lost(),
                    }
                }
                "return" => {
                    let k = num(w.get(1)).unwrap_or(0);
                    let st = a.returns.get(k).unwrap_or_else(|| lost());
                    self.ins.push((st.start, text));
                }
                "arm" => {
                    let k = num(w.get(1)).unwrap_or_else(|| lost());
                    let (r, blk) = a.arms.get(k).unwrap_or_else(|| lost());
                    if w.get(2) == Some(&"replace") {
                        self.reps.push((r.clone(), text.trim().to_string()));
                        self.notes.push(format!("body of match arm {k} not extracted, a call with an assumed contract stands for it"));
                        continue;
                    }
                    if *blk {
                        self.ins.push((r.start + 1, text));
                    } else {
                        self.ins.push((r.start, format!("{{{text}")));
                        self.ins.push((r.end, " }".into()));
                    }
                }
                // the body of closure k is verified as a function of its own
                "closure" => {
                    let k = num(w.get(1)).unwrap_or_else(|| lost());
                    let c = nth_closure(block, k).unwrap_or_else(|| lost());
                    self.reps.push((span_of(&c.body), text.trim().to_string()));
                    self.note(&format!("the body of closure {k} is emitted as a function and called here: {}", text.trim()));
                }
                "if" => {
                    let k = num(w.get(1)).unwrap_or_else(|| lost());
                    let (t, e, st) = a.ifs.get(k).unwrap_or_else(|| lost());
                    match w.get(2) {
                        Some(&"before") => self.ins.push((st.start, text)),
                        Some(&"after") => self.ins.push((st.end, text)),
                        Some(&"then") => self.ins.push((t.start + 1, text)),
                        Some(&"thenend") => self.ins.push((t.end - 1, text)),
                        Some(&"else") => match e {
                            Some(e) => self.ins.push((e.start + 1, text)),
                            None => self.ins.push((t.end, format!(" else {{ {text} }}"))),
                        },
                        _ => lost(),
                    }
                }
                _ => lost(),
            }
        }
        if std::env::var_os("VEX_PROBE").is_some() {
            self.ins.push((b.start + 1, "\nproof { assert(false); } // probe\n".into()));
        }
    }

    /// `(binding pattern text, body text)` of a closure with at most one parameter.
    fn closure_parts(&mut self, e: &syn::Expr) -> Option<(Option<String>, String)> {
        match e {
            syn::Expr::Closure(c) => {
                // leaving the closure is not leaving the function, unless its value is the function's
                let hoisted = self.reps.iter().any(|(r, _)| *r == span_of(&c.body));
                if !hoisted && !self.tails.contains(&span_of(c)) && leaves(&c.body) {
                    let syn::Expr::Block(b) = &*c.body else { fail(format!("return or ? inside a closure of {}", self.spec.path)) };
                    // `if c { return v; } rest` as `if c { v } else { rest }`
                    let end = span_of(&c.body).end - 1;
                    for s in &b.block.stmts {
                        match early_return(s) {
                            Some((st, v)) => {
                                let t = self.take_(span_of(v), true);
                                self.replace(span_of(st), t);
                                self.insert(span_of(s).end, " else {");
                                self.insert(end, " }");
                                self.note("closure `{ if c { return v; } rest }` emitted as `{ if c { v } else { rest } }`");
                            }
                            None => {
                                let mut l = Leaves(false);
                                l.visit_stmt(s);
                                if l.0 {
                                    fail(format!("return or ? inside a closure of {}", self.spec.path));
                                }
                            }
                        }
                    }
                }
                if c.inputs.len() > 1 {
                    return None;
                }
                let p = c.inputs.first().map(|p| match p {
                    syn::Pat::Type(t) => self.src[span_of(&t.pat)].to_string(),
                    p => self.src[span_of(p)].to_string(),
                });
                let b = self.take_(span_of(&c.body), true);
                Some((p, b))
            }
            syn::Expr::Path(_) => {
                let f = self.src[span_of(e)].to_string();
                Some((Some("__v".into()), format!("{f}(__v)")))
            }
            _ => None,
        }
    }

    fn method_call(&mut self, m: &syn::ExprMethodCall, whole: Range<usize>, n_loop: Option<usize>) {
        let name = m.method.to_string();
        let recv = span_of(&m.receiver);
        let args: Vec<&syn::Expr> = m.args.iter().collect();
        let is_fn = |e: &syn::Expr| matches!(e, syn::Expr::Closure(_));
        macro_rules! parts {
            ($e:expr) => {
                match self.closure_parts($e) {
                    Some(x) => x,
                    None => return,
                }
            };
        }
        // `x.a().b(args)` as a call of the verified function `v_a_b(&x, args)` of the unit
        if let (None, syn::Expr::MethodCall(r)) = (n_loop, &*m.receiver) {
            let rn = r.method.to_string();
            if r.args.is_empty() && self.opt(&format!("fn_{rn}_{name}")) {
                let x = self.take_(span_of(&r.receiver), true);
                let a: Vec<String> = args.iter().map(|a| self.take_(span_of(*a), true)).collect();
                let sep = if a.is_empty() { "" } else { ", " };
                self.replace(whole, format!("v_{rn}_{name}(&{x}{sep}{})", a.join(", ")));
                self.note(&format!("method calls .{rn}().{name}(..) emitted as call of v_{rn}_{name}, a function of the contracts file"));
                return;
            }
        }
        // `recv.name(args)` as `recv.v_name(args)`, a method of a trait in the contracts file
        if n_loop.is_none() && self.opt(&format!("m_{name}")) {
            let id = span_of(&m.method);
            self.reps.push((id, format!("v_{name}")));
            self.note(&format!("method {name} emitted as v_{name}, a method given in the contracts file"));
            return;
        }
        // `recv.name(args)` as a call of the verified function `v_name(recv, args)` of the unit
        if n_loop.is_none() && self.opt(&format!("fn_{name}")) {
            let r = self.take(recv);
            let a: Vec<String> = args.iter().map(|a| self.take_(span_of(*a), true)).collect();
            let sep = if a.is_empty() { "" } else { ", " };
            self.replace(whole, format!("v_{name}({r}{sep}{})", a.join(", ")));
            self.note(&format!("method call .{name}(..) emitted as call of v_{name}, a function of the contracts file"));
            return;
        }
        match name.as_str() {
            "or_else" if args.len() == 1 && is_fn(args[0]) => {
                let (_, b) = parts!(args[0]);
                let r = self.take(recv);
                self.replace(whole, format!("(match {r} {{ Some(__v) => Some(__v), None => {b} }})"));
                self.note("Option::or_else(closure) emitted as match");
            }
            "unwrap_or_else" if args.len() == 1 && is_fn(args[0]) => {
                let (_, b) = parts!(args[0]);
                let r = self.take(recv);
                self.replace(whole, format!("(match {r} {{ Some(__v) => __v, None => {b} }})"));
                self.note("Option::unwrap_or_else(closure) emitted as match");
            }
            "is_some_and" | "is_none_or" if args.len() == 1 => {
                let (p, b) = parts!(args[0]);
                let r = self.take(recv);
                let d = name == "is_none_or";
                self.replace(whole, format!("(match {r} {{ Some({}) => {b}, None => {d} }})", p.unwrap()));
                self.note("Option::is_some_and / is_none_or emitted as match");
            }
            "map_or" if args.len() == 2 => {
                let (p, b) = parts!(args[1]);
                let r = self.take(recv);
                let d = self.take_(span_of(args[0]), true);
                self.replace(whole, format!("(match {r} {{ Some({}) => {b}, None => {d} }})", p.unwrap()));
                self.note("Option::map_or emitted as match");
            }
            "map_or_else" if args.len() == 2 => {
                let (p, b) = parts!(args[1]);
                let (_, d) = parts!(args[0]);
                let r = self.take(recv);
                self.replace(whole, format!("(match {r} {{ Some({}) => {b}, None => {d} }})", p.unwrap()));
                self.note("Option::map_or_else emitted as match");
            }
            "map" if args.len() == 1 && self.opt("opt_map") => {
                let (p, b) = parts!(args[0]);
                let r = self.take(recv);
                self.replace(whole, format!("(match {r} {{ Some({}) => Some({b}), None => None }})", p.unwrap()));
                self.note("Option::map(closure) emitted as match");
            }
            "and_then" if args.len() == 1 && self.opt("opt_and_then") => {
                let (p, b) = parts!(args[0]);
                let r = self.take(recv);
                self.replace(whole, format!("(match {r} {{ Some({}) => {b}, None => None }})", p.unwrap()));
                self.note("Option::and_then(closure) emitted as match");
            }
            "filter" if args.len() == 1 && self.opt("opt_filter") => {
                let (p, b) = parts!(args[0]);
                let r = self.take(recv);
                self.replace(whole, format!("(match {r} {{ Some(__v) => {{ let __k = {{ let {} = &__v; {b} }}; if __k {{ Some(__v) }} else {{ None }} }}, None => None }})", p.unwrap()));
                self.note("Option::filter(closure) emitted as match");
            }
            "then" if args.len() == 1 && is_fn(args[0]) => {
                let (_, b) = parts!(args[0]);
                let r = self.take(recv);
                self.replace(whole, format!("(if {r} {{ Some({b}) }} else {{ None }})"));
                self.note("bool::then(closure) emitted as if");
            }
            // str::find(closure on characters)
            "find" if n_loop.is_some() && self.opt("str_find") => {
                let k = n_loop.unwrap();
                let (p, b) = parts!(args[0]);
                let p = p.unwrap();
                let r = self.take(recv);
                let inv = self.loop_spec(k);
                let hint = self.take_hint(k);
                self.replace(whole, format!("({{ let __s{k}: &str = {r}; let mut __n{k}: usize = 0; let mut __r{k}: Option<usize> = None; while __n{k} < __s{k}.v_len() {inv} {{ let {p}: char = v_char_at(__s{k}, __n{k}); let ghost __c{k} = {p}; {hint} if {b} {{ __r{k} = Some(__n{k}); break; }} __n{k} = __n{k} + v_char_len({p}); }} __r{k} }})"));
                self.note("str::find(closure) emitted as while loop over the characters");
            }
            "try_for_each" if n_loop.is_some() && args.len() == 1 => {
                let k = n_loop.unwrap();
                let (p, b) = parts!(args[0]);
                let p = p.unwrap();
                let direct = matches!(&*m.receiver, syn::Expr::Path(_));
                let r = self.take(recv);
                let (init, it) = if direct { (String::new(), r.clone()) } else { (format!("let mut __it{k} = {r};"), format!("__it{k}")) };
                let inv = self.loop_spec(k);
                let hint = self.take_hint(k);
                self.replace(whole, format!("({{ {init} let mut __r{k} = Ok(()); while let Some({p}) = {it}.next() {inv} {{ {hint} __r{k} = {b}; if __r{k}.is_err() {{ break; }} }} __r{k} }})"));
                self.note("Iterator::try_for_each(closure) emitted as while let loop");
            }
            // x.iter_mut().skip(n).for_each(closure)
            "for_each" if n_loop.is_some() && args.len() == 1 && is_iter_mut(&m.receiver).is_some() => {
                let k = n_loop.unwrap();
                let (x, skip) = is_iter_mut(&m.receiver).unwrap();
                let (p, b) = parts!(args[0]);
                let t = self.iter_mut_loop(k, x, skip, &p.unwrap(), &b, "");
                self.replace(whole, t);
            }
            // x.iter_mut().filter(f).zip(each element of a twice, then d).for_each(|(p, q)| body)
            "for_each" if n_loop.is_some() && args.len() == 1 && is_call(&m.receiver, "zip").is_some() => {
                let k = n_loop.unwrap();
                let (l, z) = is_call(&m.receiver, "zip").unwrap();
                let Some((a, d)) = is_doubled(z) else { return };
                let Some((x, f)) = is_call(l, "filter") else { return };
                let Some((x, None)) = is_iter_mut(x) else { return };
                let syn::Expr::Closure(c) = args[0] else { return };
                let Some(syn::Pat::Tuple(tp)) = c.inputs.first() else { return };
                if tp.elems.len() != 2 {
                    return;
                }
                let (p, q) = (self.src[span_of(&tp.elems[0])].to_string(), self.src[span_of(&tp.elems[1])].to_string());
                let b = self.take_(span_of(&c.body), true);
                let (fp, fb) = parts!(f);
                let fp = fp.unwrap();
                let a = self.take_(span_of(a), true);
                let d = self.take_(span_of(d), true);
                let x = self.mut_place(x);
                let inv = self.loop_spec(k);
                let hint = self.take_hint(k);
                let hend = self.take_hint_at(usize::MAX - 100_000 - k);
                self.replace(whole, format!("{{ let __s{k} = {x}; let mut __n{k}: usize = 0; let mut __m{k}: usize = 0; let mut __w{k}: bool = false; while __n{k} < __s{k}.len() {inv} {{ {hint} let __f{k} = {{ let {fp} = &__s{k}[__n{k}]; {fb} }}; if __f{k} {{ let {q} = if __m{k} < {a}.len() {{ {a}[__m{k}] }} else {{ {d} }}; if __w{k} {{ __w{k} = false; __m{k} = __m{k} + 1; }} else {{ __w{k} = true; }} let {p} = &mut __s{k}[__n{k}]; {b}; }} __n{k} = __n{k} + 1; {hend} }} }}"));
                self.note("x.iter_mut().filter(f).zip(every element of a twice, then d for ever).for_each(closure) emitted as while loop by index");
            }
            // repeat_n(a, m).chain(repeat_n(b, n)).for_each(closure)
            "for_each" if n_loop.is_some() && args.len() == 1 && is_repeats(&m.receiver).is_some() => {
                let k = n_loop.unwrap();
                let (a, n1, b2, n2) = is_repeats(&m.receiver).unwrap();
                let (p, b) = parts!(args[0]);
                let p = p.unwrap();
                let (a, n1, b2, n2) = (self.take_(span_of(a), true), self.take_(span_of(n1), true), self.take_(span_of(b2), true), self.take_(span_of(n2), true));
                let inv = self.loop_spec(k);
                let hint = self.take_hint(k);
                self.replace(whole, format!("{{ let __m{k}: usize = {n1}; let __t{k}: usize = __m{k} + ({n2}); let mut __n{k}: usize = 0; while __n{k} < __t{k} {inv} {{ {hint} let {p} = if __n{k} < __m{k} {{ {a} }} else {{ {b2} }}; __n{k} = __n{k} + 1; {b} }} }}"));
                self.note("repeat_n(a, m).chain(repeat_n(b, n)).for_each(closure) emitted as counting while loop");
            }
            // (a..).find(closure)
            "find" if n_loop.is_some() && args.len() == 1 && range_from(&m.receiver).is_some() => {
                let k = n_loop.unwrap();
                let lo = range_from(&m.receiver).unwrap();
                let lo = self.take_(span_of(lo), true);
                let (p, b) = parts!(args[0]);
                let p = p.unwrap();
                let inv = self.loop_spec(k);
                let hint = self.take_hint(k);
                self.replace(whole, format!("({{ let mut __x{k}: usize = {lo}; let mut __r{k}: Option<usize> = None; loop {inv} {{ {hint} if {{ let {p} = __x{k}; {b} }} {{ __r{k} = Some(__x{k}); break; }} __x{k} = __x{k} + 1; }} __r{k} }})"));
                self.note("(a..).find(closure) emitted as counting loop, the closure's parameter by value");
            }
            // x.iter().filter(f).for_each(closure)
            "for_each" if n_loop.is_some() && args.len() == 1 && is_call(&m.receiver, "filter").is_some() => {
                let k = n_loop.unwrap();
                let (x, f) = is_call(&m.receiver, "filter").unwrap();
                let (p, b) = parts!(args[0]);
                let (fp, fb) = parts!(f);
                let (p, fp) = (p.unwrap(), fp.unwrap());
                let x = self.take_(span_of(x), true);
                let inv = self.loop_spec(k);
                let hint = self.take_hint(k);
                self.replace(whole, format!("{{ let mut __it{k} = {x}; while let Some(__x{k}) = __it{k}.next() {inv} {{ {hint} if {{ let {fp} = &__x{k}; {fb} }} {{ let {p} = __x{k}; {b}; }} }} }}"));
                self.note("Iterator::filter(f).for_each(closure) emitted as while let loop");
            }
            // v.extend(x.filter(f).map(g))
            "extend" if n_loop.is_some() && args.len() == 1 => {
                let k = n_loop.unwrap();
                let Some((x, g)) = is_call(args[0], "map") else { return };
                let Some((x, f)) = is_call(x, "filter") else { return };
                let (p, b) = parts!(g);
                let (fp, fb) = parts!(f);
                let (p, fp) = (p.unwrap(), fp.unwrap());
                let x = self.take_(span_of(x), true);
                let v = self.take_(recv, true);
                let inv = self.loop_spec(k);
                let hint = self.take_hint(k);
                self.replace(whole, format!("{{ let mut __it{k} = {x}; while let Some(__x{k}) = __it{k}.next() {inv} {{ {hint} if {{ let {fp} = &__x{k}; {fb} }} {{ let {p} = __x{k}; let __y{k} = {b}; {v}.push(__y{k}); }} }} }}"));
                self.note("v.extend(x.filter(f).map(g)) emitted as while let loop with push");
            }
            // x.iter().rposition(closure), from the end by index
            "rposition" if n_loop.is_some() && args.len() == 1 => {
                let k = n_loop.unwrap();
                let syn::Expr::MethodCall(it) = &*m.receiver else { return };
                if it.method != "iter" {
                    return;
                }
                let (p, b) = parts!(args[0]);
                let p = p.unwrap();
                let x = self.take_(span_of(&it.receiver), true);
                let inv = self.loop_spec(k);
                let hint = self.take_hint(k);
                self.replace(whole, format!("({{ let mut __n{k}: usize = {x}.len(); let mut __r{k}: Option<usize> = None; while __n{k} > 0 {inv} {{ __n{k} = __n{k} - 1; {hint} if {{ let {p} = &{x}[__n{k}]; {b} }} {{ __r{k} = Some(__n{k}); break; }} }} __r{k} }})"));
                self.note("x.iter().rposition(closure) emitted as while loop by descending index");
            }
            "any" | "all" | "position" | "find" | "for_each" if n_loop.is_some() && args.len() == 1 => {
                let n = n_loop.unwrap();
                let (p, b) = parts!(args[0]);
                let p = p.unwrap();
                let direct = matches!(&*m.receiver, syn::Expr::Path(_));
                let r = self.take(recv);
                let k = n;
                let (init, it) = if direct { (String::new(), r.clone()) } else { (format!("let mut __it{k} = {r};"), format!("__it{k}")) };
                let inv = self.loop_spec(n);
                let hint = self.take_hint(n);
                let t = match name.as_str() {
                    "any" => format!("({{ {init} let mut __r{k} = false; while let Some({p}) = {it}.next() {inv} {{ {hint} if {b} {{ __r{k} = true; break; }} }} __r{k} }})"),
                    "all" => format!("({{ {init} let mut __r{k} = true; while let Some({p}) = {it}.next() {inv} {{ {hint} if !({b}) {{ __r{k} = false; break; }} }} __r{k} }})"),
                    "position" => format!("({{ {init} let mut __r{k}: Option<usize> = None; let mut __n{k}: usize = 0; while let Some({p}) = {it}.next() {inv} {{ {hint} if {b} {{ __r{k} = Some(__n{k}); break; }} __n{k} += 1; }} __r{k} }})"),
                    "find" => format!("({{ {init} let mut __r{k} = None; if false {{ __r{k} = {it}.next(); }} while let Some(__x{k}) = {it}.next() {inv} {{ {hint} if {{ let {p} = &__x{k}; {b} }} {{ __r{k} = Some(__x{k}); break; }} }} __r{k} }})"),
                    _ => format!("{{ {init} while let Some({p}) = {it}.next() {inv} {{ {hint} {b}; }} }}"),
                };
                self.replace(whole, t);
                self.note(&format!("Iterator::{name}(closure) emitted as while let loop"));
            }
            // x.iter().rfind(closure), from the end by index
            "rfind" if n_loop.is_some() && args.len() == 1 => {
                let k = n_loop.unwrap();
                let syn::Expr::MethodCall(it) = &*m.receiver else { return };
                if it.method != "iter" {
                    return;
                }
                let (p, b) = parts!(args[0]);
                let p = p.unwrap();
                let sl = self.opt("slice") && is_range_index(&it.receiver).is_some();
                let x = self.take_(span_of(&it.receiver), true);
                let x = if sl { x } else { format!("v_as_slice(&{x})") };
                let inv = self.loop_spec(k);
                let hint = self.take_hint(k);
                self.replace(whole, format!("({{ let __s{k} = {x}; let mut __n{k}: usize = __s{k}.len(); let mut __r{k} = None; if false {{ __r{k} = Some(&__s{k}[0]); }} while __n{k} > 0 {inv} {{ __n{k} = __n{k} - 1; let __x{k} = &__s{k}[__n{k}]; {hint} if {{ let {p} = &__x{k}; {b} }} {{ __r{k} = Some(__x{k}); break; }} }} __r{k} }})"));
                self.note("x.iter().rfind(closure) emitted as while loop by descending index");
            }
            "count" if n_loop.is_some() && args.is_empty() => {
                // [...].take_while(closure).count()
                let n = n_loop.unwrap();
                let k = n;
                let inv = self.loop_spec(n);
                let hint = self.take_hint(n);
                if let syn::Expr::MethodCall(tw) = &*m.receiver {
                    let kind = tw.method.to_string();
                    if (kind == "take_while" || kind == "filter") && tw.args.len() == 1 {
                        let Some((p, b)) = self.closure_parts(&tw.args[0]) else { return };
                        let p = p.unwrap();
                        let r = self.take(span_of(&tw.receiver));
                        let t = if kind == "take_while" {
                            format!("({{ let mut __it{k} = {r}; let mut __n{k}: usize = 0; while let Some(__x{k}) = __it{k}.next() {inv} {{ {hint} if !{{ let {p} = &__x{k}; {b} }} {{ break; }} __n{k} += 1; }} __n{k} }})")
                        } else {
                            format!("({{ let mut __it{k} = {r}; let mut __n{k}: usize = 0; while let Some(__x{k}) = __it{k}.next() {inv} {{ {hint} if {{ let {p} = &__x{k}; {b} }} {{ __n{k} += 1; }} }} __n{k} }})")
                        };
                        self.replace(whole, t);
                        self.note("Iterator::take_while / filter(closure).count() emitted as while let loop");
                    }
                }
            }
            _ => {}
        }
    }

    /// A part of the source by a range in a variable.
    fn is_src_index(&self, e: &syn::Expr) -> Option<&'static str> {
        let syn::Expr::Index(i) = e else { return None };
        let base = i.expr.to_token_stream().to_string().replace(' ', "");
        let range = |x: &syn::Expr| matches!(x, syn::Expr::MethodCall(m) if m.method == "clone");
        match base.as_str() {
            "self.src" if self.opt("src_psub") && !matches!(&*i.index, syn::Expr::Range(_)) => Some("v_psub"),
            "self.src" | "self.input.src" if self.opt("src_sub") && !matches!(&*i.index, syn::Expr::Range(_)) => Some("v_sub"),
            "self.src.as_bytes()" | "self.input.src.as_bytes()" if (self.opt("src_sub") || self.opt("src_psub")) && range(&i.index) => Some("v_bsub"),
            _ => None,
        }
    }

    /// `&mut x` of an indexed range or a place.
    fn mut_place(&mut self, x: &syn::Expr) -> String {
        match is_range_index(x) {
            Some((x, g)) => {
                let syn::RangeLimits::HalfOpen(_) = g.limits else { fail("inclusive mutable range".into()) };
                // a local name is a reference already, a field is a vector
                let path = matches!(x, syn::Expr::Path(_));
                let b = self.take_(span_of(x), true);
                let b = if path { b } else { format!("&mut {b}") };
                let lo = g.start.as_ref().map(|l| self.take_(span_of(&**l), true));
                let hi = g.end.as_ref().map(|h| self.take_(span_of(&**h), true));
                let v = if path { "v_mut" } else { "v_vmut" };
                self.note("&mut x[a..b] emitted as v_mut(x, a, b), a function of the contracts file");
                match (lo, hi) {
                    (Some(l), None) => format!("{v}_from({b}, {l})"),
                    (None, Some(h)) => format!("{v}_to({b}, {h})"),
                    (Some(l), Some(h)) => format!("{v}({b}, {l}, {h})"),
                    (None, None) => fail("mutable full range".into()),
                }
            }
            None => self.take_(span_of(x), true),
        }
    }

    fn iter_mut_loop(&mut self, k: usize, x: &syn::Expr, skip: Option<&syn::Expr>, pat: &str, body: &str, label: &str) -> String {
        let skip = skip.map_or("0".into(), |s| self.take_(span_of(s), true));
        let x = self.take_(span_of(x), true);
        let inv = self.loop_spec(k);
        let hint = self.take_hint(k);
        self.note("loop over x.iter_mut() emitted as while loop by index");
        format!("{{ let mut __n{k}: usize = {skip}; {label}while __n{k} < {x}.len() {inv} {{ {hint} let {pat} = &mut {x}[__n{k}]; __n{k} = __n{k} + 1; {body} }} }}")
    }

    fn take_hint(&mut self, n: usize) -> String {
        self.take_hint_at(usize::MAX - n)
    }

    fn take_hint_at(&mut self, key: usize) -> String {
        let t: String = self.ins.iter().filter(|(p, _)| *p == key).map(|(_, t)| t.clone()).collect();
        self.ins.retain(|(p, _)| *p != key);
        t
    }

    fn macro_(&mut self, m: &syn::Macro, whole: Range<usize>, stmt: bool) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let semi = if stmt { ";" } else { "" };
        let args = || m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated).unwrap_or_else(|e| fail(format!("{name}!: {e}")));
        match name.as_str() {
            "debug_assert" | "assert" => {
                let a = args();
                let c = &self.src[span_of(&a[0])];
                self.replace(whole, format!("if !({c}) {{ vpanic(); }}"));
                self.note("assertion macros emitted as `if !c { vpanic(); }` where vpanic requires false");
            }
            "debug_assert_eq" | "assert_eq" => {
                let a = args();
                let (x, y) = (&self.src[span_of(&a[0])], &self.src[span_of(&a[1])]);
                self.replace(whole, format!("if !({x} == {y}) {{ vpanic(); }}"));
                self.note("assertion macros emitted as `if !c { vpanic(); }` where vpanic requires false");
            }
            "debug_assert_ne" | "assert_ne" => {
                let a = args();
                let (x, y) = (&self.src[span_of(&a[0])], &self.src[span_of(&a[1])]);
                self.replace(whole, format!("if {x} == {y} {{ vpanic(); }}"));
                self.note("assertion macros emitted as `if !c { vpanic(); }` where vpanic requires false");
            }
            // only where comparisons are rewritten
            "matches" if self.opt("eq") || self.opt("matches") => {
                struct M(syn::Expr, syn::Pat, Option<syn::Expr>);
                impl syn::parse::Parse for M {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let e = i.parse()?;
                        i.parse::<syn::Token![,]>()?;
                        let p = syn::Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(syn::Token![if]) {
                            i.parse::<syn::Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _ = i.parse::<Option<syn::Token![,]>>();
                        Ok(M(e, p, g))
                    }
                }
                let Ok(M(e, p, g)) = m.parse_body::<M>() else { return };
                self.visit_expr(&e);
                let e = self.take_(span_of(&e), true);
                if let (true, None, Some(alts)) = (self.opt("eq"), &g, alternatives(self.src, &p)) {
                    if alts.iter().all(|a| a.starts_with('"')) {
                        let c: Vec<String> = alts.iter().map(|a| format!("v_eq({e}, {a})")).collect();
                        self.replace(whole, format!("({}){semi}", c.join(" || ")));
                        self.note("matches!(e, string literals) emitted as comparisons");
                        return;
                    }
                }
                let p = self.src[span_of(&p)].to_string();
                let b = match &g {
                    Some(g) => {
                        self.visit_expr(g);
                        self.take_(span_of(g), true)
                    }
                    None => "true".into(),
                };
                self.replace(whole, format!("(match {e} {{ {p} => {b}, _ => false }}){semi}"));
                self.note("matches!(e, p if g) emitted as match e { p => g, _ => false }");
            }
            // write!(out, "..{x}..", args)
            "write" if self.opt("write") => {
                let a = args();
                let out = self.src[span_of(&a[0])].to_string();
                let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(f), .. }) = &a[1] else { return };
                let mut pos = a.iter().skip(2);
                let f: Vec<char> = f.value().chars().collect();
                let mut parts: Vec<(bool, String)> = vec![];   // (literal?, text)
                let mut cur = String::new();
                let mut i = 0;
                while i < f.len() {
                    match f[i] {
                        c @ ('{' | '}') if f.get(i + 1) == Some(&c) => {
                            cur.push(c);
                            i += 1;
                        }
                        '{' => {
                            let Some(n) = f[i..].iter().position(|c| *c == '}') else { return };
                            let name: String = f[i + 1..i + n].iter().collect();
                            if name.contains(':') {
                                return;
                            }
                            if !cur.is_empty() {
                                parts.push((true, std::mem::take(&mut cur)));
                            }
                            let e = if name.is_empty() {
                                let Some(e) = pos.next() else { return };
                                self.src[span_of(e)].to_string()
                            } else {
                                name
                            };
                            parts.push((false, e));
                            i += n;
                        }
                        c => cur.push(c),
                    }
                    i += 1;
                }
                if !cur.is_empty() {
                    parts.push((true, cur));
                }
                let mut t = String::from("Ok(())");
                for (k, (l, x)) in parts.iter().rev().enumerate() {
                    let w = if *l {
                        self.lits.push(x.clone());
                        format!("{out}.write_str({})", lit(x))
                    } else {
                        format!("({x}).v_fmt({out})")
                    };
                    t = if k == 0 { w } else { format!("(match {w} {{ Ok(_) => {t}, Err(__e) => Err(__e) }})") };
                }
                self.replace(whole, format!("{t}{semi}"));
                self.note("write!(out, ..) emitted as write_str of the literal parts and v_fmt of the arguments, in order, until one fails");
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                self.replace(whole, format!("vpanic(){semi}"));
                self.note("panic!/unreachable! emitted as vpanic(), which requires false");
            }
            _ => {}
        }
    }
}

impl<'ast> Visit<'ast> for FnEditor<'_> {
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        if let (syn::Stmt::Item(syn::Item::Fn(f)), true) = (s, self.opt("hoist")) {
            self.replace(span_of(s), String::new());
            self.note(&format!("the nested function {} is emitted next to its outer function", f.sig.ident));
            return;
        }
        // `let NAME: T = e;` as an arbitrary value of T, if e changes nothing
        if let syn::Stmt::Local(l) = s {
            if let (syn::Pat::Type(t), Some(i)) = (&l.pat, &l.init) {
                let name = self.src[span_of(&t.pat)].to_string();
                if self.opt(&format!("havoc_{name}")) {
                    if let Some(why) = changes(&i.expr) {
                        fail(format!("the value of {name} in {} is not a mere reading of the state: {why}", self.spec.path));
                    }
                    self.replace(span_of(&i.expr), format!("v_any_{name}()"));
                    self.note(&format!("the value of {name} is taken to be arbitrary: the expression that computes it is not under contract"));
                    return;
                }
            }
        }
        visit::visit_stmt(self, s);
        if let syn::Stmt::Macro(m) = s {
            self.macro_(&m.mac, span_of(s), m.semi_token.is_some());
        }
    }

    fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
        // attributes on statements and expressions
        self.replace(span_of(a), String::new());
    }

    fn visit_expr_match(&mut self, m: &'ast syn::ExprMatch) {
        visit::visit_expr_match(self, m);
        let is_str = |p: &syn::Pat| match p {
            syn::Pat::Lit(l) => matches!(l.lit, syn::Lit::Str(_)),
            syn::Pat::Or(o) => o.cases.iter().all(|p| matches!(p, syn::Pat::Lit(syn::ExprLit { lit: syn::Lit::Str(_), .. }))),
            _ => false,
        };
        if m.arms.iter().any(|a| is_str(&a.pat)) && m.arms.iter().all(|a| a.guard.is_none()) {
            let k = self.fresh();
            let e = self.take_(span_of(&m.expr), true);
            let mut t = format!("{{ let __m{k}: &str = {e}; ");
            for a in &m.arms {
                let b = self.take_(span_of(&a.body), true);
                if is_str(&a.pat) {
                    let alts = alternatives(self.src, &a.pat).unwrap_or_else(|| vec![self.src[span_of(&a.pat)].to_string()]);
                    let c: Vec<String> = alts.iter().map(|x| format!("v_eq(__m{k}, {x})")).collect();
                    t.push_str(&format!("if {} {{ {b} }} else ", c.join(" || ")));
                } else {
                    t.push_str(&format!("{{ let {} = __m{k}; {b} }}", &self.src[span_of(&a.pat)]));
                }
            }
            t.push_str(" }");
            self.replace(span_of(m), t);
            self.note("match on string literals emitted as if-else chain of comparisons");
            return;
        }
        if !(self.opt("match_guards") && m.arms.iter().any(|a| a.guard.is_some())) {
            return;
        }
        let k = self.fresh();
        let e = self.take_(span_of(&m.expr), true);
        // a place is matched in place
        let place = matches!(&*m.expr, syn::Expr::Field(_) | syn::Expr::Path(_));
        let mut t = if place { "{ ".to_string() } else { format!("{{ let __m{k} = {e}; ") };
        let sc = if place { e } else { format!("__m{k}") };
        let n = m.arms.len();
        for (i, a) in m.arms.iter().enumerate() {
            let p = self.src[span_of(&a.pat)].to_string();
            let mut names = vec![];
            pat_idents(&a.pat, &mut names);
            names.retain(|x| x.starts_with(|c: char| c.is_lowercase() || c == '_'));
            let g = a.guard.as_ref().map(|(_, g)| self.take_(span_of(&**g), true));
            let mut b = self.take_(span_of(&a.body), true);
            if self.pruned(&a.pat) || (n >= 6 && self.pruned_char(&a.pat)) {
                b = "vpanic()".into();
            }
            if i + 1 == n && g.is_none() && matches!(a.pat, syn::Pat::Wild(_)) {
                t.push_str(&format!("{{ {b} }}"));
            } else {
                match g {
                    None => t.push_str(&format!("if let {p} = {sc} {{ {b} }} else ")),
                    Some(g) if names.is_empty() => t.push_str(&format!("if (if let {p} = {sc} {{ {g} }} else {{ false }}) {{ {b} }} else ")),
                    Some(g) => t.push_str(&format!("if (if let {p} = {sc} {{ {g} }} else {{ false }}) {{ if let {p} = {sc} {{ {b} }} else {{ vpanic() }} }} else ")),
                }
                if i + 1 == n {
                    t.push_str("{ vpanic() }");
                }
            }
        }
        t.push_str(" }");
        self.replace(span_of(m), t);
        self.note("match with guards emitted as if-else chain in the order of its arms");
    }

    fn visit_arm(&mut self, a: &'ast syn::Arm) {
        visit::visit_arm(self, a);
        if self.pruned(&a.pat) {
            self.take_(span_of(&a.body), true);
            self.replace(span_of(&a.body), "{ vpanic() }".into());
        }
        if self.opt("match_guards") {
            return;
        }
        let Some((_, g)) = &a.guard else {
            if self.opt("mut_alts") && binds(&a.pat) {
                if let Some(alts) = alternatives(self.src, &a.pat) {
                    let body = self.take_(span_of(&a.body), true);
                    let t: Vec<String> = alts.iter().map(|p| format!("{p} => {body}")).collect();
                    let r = span_of(&a.pat).start..span_of(&a.body).end;
                    self.replace(r, t.join(", "));
                    self.note("match arm `A(x) | B(x)` emitted as one arm per alternative");
                }
            }
            return;
        };
        let Some(alts) = alternatives(self.src, &a.pat) else { return };
        let gt = self.take_(span_of(&**g), true);
        let body = self.take_(span_of(&a.body), true);
        let t: Vec<String> = alts.iter().map(|p| format!("{p} if {gt} => {body}")).collect();
        let r = span_of(&a.pat).start..span_of(&a.body).end;
        // (a body insertion at the end has been taken)
        self.replace(r, t.join(", "));
        self.note("match arm `A | B if g` emitted as one arm per alternative");
    }

    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        let whole = span_of(e);
        match e {
            syn::Expr::While(l) => {
                let n = self.loops;
                self.loops += 1;
                let t = self.loop_spec(n);
                self.insert(span_of(&l.body).start, format!("{t}    "));
                visit::visit_expr(self, e);
            }
            syn::Expr::Loop(l) => {
                let n = self.loops;
                self.loops += 1;
                let t = self.loop_spec(n);
                self.insert(span_of(&l.body).start, format!("{t}    "));
                visit::visit_expr(self, e);
            }
            syn::Expr::ForLoop(l) => {
                let n = self.loops;
                self.loops += 1;
                visit::visit_expr(self, e);
                let inv = self.loop_spec(n);
                let k = n;
                let body_r = span_of(&l.body);
                let body = self.take(body_r);
                let label = l.label.as_ref().map_or(String::new(), |x| self.src[span_of(x)].to_string() + " ");
                let mut pat = self.src[span_of(&l.pat)].to_string();
                let mut pre = String::new();
                let mut inner = String::new();
                // `for (i, x) in e.enumerate()`
                let mut iter_e: &syn::Expr = &l.expr;
                if let (syn::Expr::MethodCall(m), syn::Pat::Tuple(tp)) = (&*l.expr, &*l.pat) {
                    if m.method == "enumerate" && tp.elems.len() == 2 {
                        let i = self.src[span_of(&tp.elems[0])].to_string();
                        pat = self.src[span_of(&tp.elems[1])].to_string();
                        pre = format!("let mut __n{k}: usize = 0;");
                        inner = format!("let {i} = __n{k}; __n{k} = __n{k} + 1;");
                        iter_e = &m.receiver;
                        self.note("for (i, x) in e.enumerate() emitted with an explicit counter");
                    }
                }
                if let syn::Expr::Paren(p) = iter_e {
                    if matches!(&*p.expr, syn::Expr::Range(_)) {
                        iter_e = &p.expr;
                    }
                }
                let range = match iter_e {
                    syn::Expr::Range(g) if matches!(g.limits, syn::RangeLimits::HalfOpen(_)) => g.start.as_ref().zip(g.end.as_ref()),
                    _ => None,
                };
                let t = if let (Some((a, q, n)), true) = (is_once_chain(iter_e), self.opt("once_chain")) {
                    let (a, q, n) = (self.take_(span_of(a), true), self.take_(span_of(q), true), self.take_(span_of(n), true));
                    self.note("once(a).chain(q.iter().take(n).cloned()) emitted as v_lines(a, &q, n), a function of the contracts file");
                    format!("{{ let mut __it{k} = v_lines({a}, &{q}, {n}); {pre} {label}while let Some({pat}) = __it{k}.next() {inv} {{ {inner} {} }} }}", &body[1..body.len() - 1])
                } else if let (Some((x, skip)), true) = (is_iter_mut(iter_e), pre.is_empty()) {
                    self.iter_mut_loop(k, x, skip, &pat, &body[1..body.len() - 1], &label)
                } else if let Some((lo, hi)) = range {
                    let (lo, hi) = (self.take_(span_of(&**lo), true), self.take_(span_of(&**hi), true));
                    self.note("for x in a..b emitted as while loop with a counter");
                    format!("{{ {pre} let mut __x{k} = {lo}; let __e{k} = {hi}; {label}while __x{k} < __e{k} {inv} {{ let {pat} = __x{k}; __x{k} = __x{k} + 1; {inner} {} }} }}", &body[1..body.len() - 1])
                } else if let (syn::Expr::Reference(r), true) = (iter_e, matches!(iter_e, syn::Expr::Reference(r) if r.mutability.is_some())) {
                    let it = self.take(span_of(&r.expr));
                    format!("{{ {pre} {label}while let Some({pat}) = {it}.next() {inv} {{ {inner} {} }} }}", &body[1..body.len() - 1])
                } else {
                    let mut it = self.take_(span_of(iter_e), true);
                    if matches!(iter_e, syn::Expr::Reference(_)) {
                        it = if self.opt("m_iter") { format!("({it}).v_iter()") } else { format!("({it}).iter()") };
                        self.note("for x in &e emitted as for x in e.iter()");
                    }
                    format!("{{ let mut __it{k} = {it}; {pre} {label}while let Some({pat}) = __it{k}.next() {inv} {{ {inner} {} }} }}", &body[1..body.len() - 1])
                };
                self.replace(whole, t);
                self.note("for loop emitted as while let over Iterator::next");
            }
            syn::Expr::MethodCall(m) => {
                let n = if is_iter_loop(&self.spec.opts, m) {
                    self.loops += 1;
                    Some(self.loops - 1)
                } else {
                    None
                };
                visit::visit_expr(self, e);
                self.method_call(m, whole, n);
            }
            syn::Expr::Call(c) if from_fn(&self.spec.opts, c).is_some() => {
                let (f, body) = from_fn(&self.spec.opts, c).unwrap();
                let n = self.loops;
                self.loops += 1;
                self.closures += 1;
                self.visit_expr(&f.body);
                let inv = self.loop_spec(n);
                let b = self.take_(body, true);
                self.replace(whole, format!("{{ let mut __v{n} = Vec::new(); loop {inv} {{ match {b} {{ Some(__x) => __v{n}.push(__x), None => break, }} }} __v{n} }}"));
                self.note("std::iter::from_fn(closure) emitted as loop that collects what the closure gives until None");
            }
            syn::Expr::Reference(r) if self.opt("slice") && self.is_src_index(&r.expr).is_none() && r.mutability.is_none() && is_range_index(&r.expr).is_some() => {
                visit::visit_expr(self, e);
                let t = self.take_(span_of(&*r.expr), true);
                self.replace(whole, t);
            }
            // &self.src[range], self.src[range], self.src.as_bytes()[range.clone()]
            syn::Expr::Reference(r) if r.mutability.is_none() && self.is_src_index(&r.expr).is_some() => {
                visit::visit_expr(self, e);
                let t = self.take_(span_of(&*r.expr), true);
                self.replace(whole, t);
            }
            syn::Expr::Index(i) if self.is_src_index(e).is_some() => {
                visit::visit_expr(self, e);
                let f = self.is_src_index(e).unwrap();
                let r = self.take_(span_of(&*i.index), true);
                let src = if i.expr.to_token_stream().to_string().replace(' ', "").starts_with("self.input") { "self.input.src" } else { "self.src" };
                self.replace(whole, format!("{f}({src}, {r})"));
                self.note("&self.src[range] and &self.src.as_bytes()[range] emitted as v_sub(self.src, range), v_psub or v_bsub, functions of the contracts file");
            }
            syn::Expr::Reference(r) if self.opt("slice") && r.mutability.is_some() && is_range_index(&r.expr).is_some() => {
                let Some((x, g)) = is_range_index(&r.expr) else { return };
                self.visit_expr(x);
                if let Some(e) = &g.start {
                    self.visit_expr(e);
                }
                if let Some(e) = &g.end {
                    self.visit_expr(e);
                }
                let t = self.mut_place(&r.expr);
                self.replace(whole, t);
            }
            syn::Expr::Binary(b) if self.opt("bool_ops") && matches!(b.op, syn::BinOp::BitAndAssign(_)) => {
                visit::visit_expr(self, e);
                let x = self.take_(span_of(&*b.left), true);
                let y = self.take_(span_of(&*b.right), true);
                self.replace(whole, format!("{x} = {{ let __b = {y}; {x} && __b }}"));
                self.note("x &= e of bool emitted as x = x && e, with e evaluated first");
            }
            syn::Expr::Index(_) if self.opt("slice") && is_range_index(e).is_some() => {
                visit::visit_expr(self, e);
                let (x, g) = is_range_index(e).unwrap();
                let b = self.take_(span_of(x), true);
                let lo = g.start.as_ref().map(|l| self.take_(span_of(&**l), true));
                let hi = g.end.as_ref().map(|h| self.take_(span_of(&**h), true));
                let incl = matches!(g.limits, syn::RangeLimits::Closed(_));
                let hi = hi.map(|h| if incl { format!("({h}) + 1") } else { h });
                let t = match (lo, hi) {
                    (None, None) => format!("{b}.v_slice_all()"),
                    (Some(l), None) => format!("{b}.v_slice_from({l})"),
                    (None, Some(h)) => format!("{b}.v_slice_to({h})"),
                    (Some(l), Some(h)) => format!("{b}.v_slice({l}, {h})"),
                };
                self.replace(whole, t);
                self.note("&x[a..b] emitted as x.v_slice(a, b), a method given in the contracts file");
            }
            syn::Expr::Binary(b) if self.opt("eq") && matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_)) => {
                visit::visit_expr(self, e);
                let x = self.take_(span_of(&*b.left), true);
                let y = self.take_(span_of(&*b.right), true);
                let neg = if matches!(b.op, syn::BinOp::Ne(_)) { "!" } else { "" };
                self.replace(whole, format!("{neg}v_eq({x}, {y})"));
                self.note("a == b emitted as v_eq(a, b), a function of the contracts file");
            }
            syn::Expr::Macro(m) => {
                visit::visit_expr(self, e);
                self.macro_(&m.mac, whole, false);
            }
            syn::Expr::Closure(c) => {
                let n = self.closures;
                self.closures += 1;
                visit::visit_expr(self, e);
                if let Some((_, h)) = self.spec.closures.iter().find(|(k, _)| *k == n) {
                    let b = self.take_(span_of(&c.body), true);
                    self.replace(whole, format!("{h} {{ {b} }}"));
                    self.note("closure parameters typed and given a contract");
                }
            }
            _ => visit::visit_expr(self, e),
        }
        let _ = e.span();
    }
}
