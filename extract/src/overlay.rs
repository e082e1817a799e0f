//! The overlay format, line based:
//!
//!     @file src/x.rs                  source of the following items
//!     @raw ... @end                   Verus text (specifications, lemmas, assumed contracts)
//!     @include NAME                   another overlay file of the same directory
//!     @item struct|enum|const|type|use NAME [derive A,B] [subst /a/b/]
//!     @fn PATH [self TYPE] ... @end   a function with its contract:
//!         ret NAME
//!         attr TEXT                   Verus attribute for the function
//!         req / ens / dec / sig ...   clause text until the next keyword line
//!         loop N                      invariants of the N-th loop in source order
//!             inv / invx / ens / dec
//!         at start | end | loop N start|end|before|after | let NAME [K] | call NAME [K] before|after | arm N start
//!             proof text
//!         opt NAME...                 desugarings on request
//!         subst /text/replacement/    documented textual replacement in the emitted function
//!
//! A keyword stands alone at the start of a line; everything indented below belongs to it.

use crate::fail;

#[derive(Default, Debug)]
pub struct LoopSpec {
    pub n: usize,
    pub text: String,
}

#[derive(Debug)]
pub struct Hint {
    pub anchor: Vec<String>,
    pub text: String,
}

#[derive(Default, Debug)]
pub struct FnSpec {
    pub path: String,
    pub self_ty: Option<String>,
    pub ret: Option<String>,
    pub rename: Option<String>,
    /// parameters of a closure emitted as a function
    pub params: String,
    pub attrs: Vec<String>,
    pub sig: String,
    pub req: String,
    pub ens: String,
    pub dec: String,
    pub loops: Vec<LoopSpec>,
    pub hints: Vec<Hint>,
    pub opts: Vec<String>,
    pub closures: Vec<(usize, String)>,
    pub subst: Vec<(String, String)>,
    /// name and condition of each case; the function is verified once per case
    pub cases: Vec<(String, String, Vec<String>)>,
    /// only the contract is used here: the function is verified in the unit that it is included from
    pub stub: bool,
}

pub enum Dir {
    File(String),
    Raw(String),
    Item { kind: String, name: String, derives: Option<Vec<String>>, subst: Vec<(String, String)> },
    Fn(FnSpec),
}

pub struct Overlay {
    pub dirs: Vec<Dir>,
}

fn parse_subst(s: &str) -> (String, String) {
    let s = s.trim();
    let d = s.chars().next().unwrap_or_else(|| fail("empty subst".into()));
    let p: Vec<&str> = s[d.len_utf8()..].split(d).collect();
    if p.len() < 2 {
        fail(format!("bad subst {s}"));
    }
    (p[0].to_string(), p[1].to_string())
}

impl Overlay {
    pub fn read(path: &str) -> Self {
        let mut dirs = vec![];
        Self::load(path, &mut dirs, &mut vec![]);
        Self { dirs }
    }

    fn load(path: &str, dirs: &mut Vec<Dir>, seen: &mut Vec<String>) {
        if seen.contains(&path.to_string()) {
            return;
        }
        seen.push(path.to_string());
        let text = std::fs::read_to_string(path).unwrap_or_else(|e| fail(format!("{path}: {e}")));
        let mut ls = text.lines().peekable();
        while let Some(l) = ls.next() {
            let t = l.trim();
            if t.is_empty() || t.starts_with("//") {
                continue;
            }
            let (k, rest) = t.split_once(' ').unwrap_or((t, ""));
            let rest = rest.trim();
            match k {
                "@file" => dirs.push(Dir::File(rest.into())),
                "@include" => {
                    let dir = std::path::Path::new(path).parent().unwrap();
                    // `stub`: only the contracts; `stub nouse`: and without the `use` items
                    let (rest, nouse) = rest.strip_suffix(" nouse").map_or((rest, false), |r| (r, true));
                    let (rest, stub) = rest.strip_suffix(" stub").map_or((rest, false), |r| (r, true));
                    let n = dirs.len();
                    Self::load(dir.join(rest).to_str().unwrap(), dirs, seen);
                    for d in &mut dirs[n..] {
                        if let Dir::Fn(f) = d {
                            f.stub |= stub;
                        }
                    }
                    if nouse {
                        let tail: Vec<Dir> = dirs.drain(n..).filter(|d| !matches!(d, Dir::Item { kind, .. } if kind == "use")).collect();
                        dirs.extend(tail);
                    }
                }
                "@raw" => {
                    let mut s = String::new();
                    for l in ls.by_ref() {
                        if l.trim() == "@end" {
                            break;
                        }
                        s.push_str(l);
                        s.push('\n');
                    }
                    dirs.push(Dir::Raw(s));
                }
                "@item" => {
                    let mut w = rest.splitn(3, ' ');
                    let kind = w.next().unwrap().to_string();
                    let name = w.next().unwrap_or_else(|| fail(format!("bad @item {rest}"))).to_string();
                    let mut derives = None;
                    let mut subst = vec![];
                    let mut opts = w.next().unwrap_or("").trim();
                    if let Some(d) = opts.strip_prefix("derive ") {
                        let (d, r) = d.split_once(' ').unwrap_or((d, ""));
                        derives = Some(d.split(',').filter(|x| !x.is_empty() && *x != "-").map(str::to_string).collect());
                        opts = r.trim();
                    }
                    for s in opts.split("subst ").filter(|s| !s.trim().is_empty()) {
                        subst.push(parse_subst(s));
                    }
                    dirs.push(Dir::Item { kind, name, derives, subst });
                }
                "@fn" => {
                    let mut f = FnSpec::default();
                    let (p, s) = rest.split_once(" self ").unwrap_or((rest, ""));
                    f.path = p.trim().into();
                    if !s.is_empty() {
                        f.self_ty = Some(s.trim().into());
                    }
                    let mut sect = String::new();
                    let mut in_loop: Option<usize> = None;
                    for l in ls.by_ref() {
                        let t = l.trim();
                        if t == "@end" {
                            break;
                        }
                        let (k, rest) = t.split_once(' ').unwrap_or((t, ""));
                        // keywords are indented by at most 4 columns
                        let ind = l.len() - l.trim_start().len();
                        if ind <= 4 && !t.is_empty() {
                            match k {
                                "ret" => f.ret = Some(rest.trim().into()),
                                "rename" => f.rename = Some(rest.trim().into()),
                                "params" => f.params = rest.trim().into(),
                                "attr" => f.attrs.push(rest.trim().into()),
                                "opt" => f.opts.extend(rest.split_whitespace().map(str::to_string)),
                                "subst" => f.subst.push(parse_subst(rest)),
                                "req" | "ens" | "dec" | "sig" => {
                                    sect = k.into();
                                    in_loop = None;
                                    if !rest.is_empty() {
                                        push(&mut f, &sect, in_loop, rest);
                                    }
                                }
                                "loop" => {
                                    let n: usize = rest.trim().parse().unwrap_or_else(|_| fail(format!("bad loop {rest}")));
                                    f.loops.push(LoopSpec { n, text: String::new() });
                                    in_loop = Some(n);
                                    sect = "loop".into();
                                }
                                "closure" => {
                                    let (n, r) = rest.split_once(' ').unwrap_or_else(|| fail(format!("bad closure {rest}")));
                                    f.closures.push((n.parse().unwrap(), r.to_string()));
                                }
                                "case" => {
                                    let (n, r) = rest.split_once(' ').unwrap_or_else(|| fail(format!("bad case {rest}")));
                                    // `case NAME only A,B: CONDITION`: arms for other variants are claimed unreachable
                                    let (only, r) = match r.strip_prefix("only ").and_then(|r| r.split_once(": ")) {
                                        Some((o, r)) => (o.split(',').map(|x| x.trim().to_string()).collect(), r),
                                        None => (vec![], r),
                                    };
                                    f.cases.push((n.to_string(), r.to_string(), only));
                                }
                                "at" => {
                                    f.hints.push(Hint { anchor: rest.split_whitespace().map(str::to_string).collect(), text: String::new() });
                                    sect = "at".into();
                                    in_loop = None;
                                }
                                "//" => {}
                                _ => fail(format!("{}: unknown keyword {k:?} in contract of {}", path, f.path)),
                            }
                            continue;
                        }
                        push(&mut f, &sect, in_loop, l);
                    }
                    dirs.push(Dir::Fn(f));
                }
                _ => fail(format!("{path}: unknown directive {k}")),
            }
        }
    }
}

fn push(f: &mut FnSpec, sect: &str, _in_loop: Option<usize>, l: &str) {
    let s = match sect {
        "req" => &mut f.req,
        "ens" => &mut f.ens,
        "dec" => &mut f.dec,
        "sig" => &mut f.sig,
        "loop" => &mut f.loops.last_mut().unwrap().text,
        "at" => &mut f.hints.last_mut().unwrap().text,
        _ => {
            if l.trim().is_empty() {
                return;
            }
            fail(format!("text outside a section in contract of {}: {l}", f.path))
        }
    };
    s.push_str(l);
    s.push('\n');
}
