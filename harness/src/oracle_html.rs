//! Oracles over the HTML renderer and the attribute API.

use crate::gen::Rng;
use crate::oracle::{events, renderer, Res};
use jotdown::*;

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

// ------------------------------------------------------------------ a strict HTML tokenizer

#[derive(Debug, Clone, PartialEq)]
pub enum Tok {
    Open(String, Vec<(String, String)>),
    Close(String),
    Text(String),
}

fn unescape(s: &str, attr: bool) -> Result<String, String> {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find(['&', '<', '>', '"']) {
        out.push_str(&rest[..i]);
        let r = &rest[i..];
        let mut hit = false;
        for (e, c) in [("&lt;", "<"), ("&gt;", ">"), ("&amp;", "&"), ("&quot;", "\""), ("&nbsp;", "\u{a0}")] {
            if let Some(x) = r.strip_prefix(e) {
                out.push_str(c);
                rest = x;
                hit = true;
                break;
            }
        }
        if !hit {
            if r.starts_with('"') && !attr {
                out.push('"');
                rest = &r[1..];
            } else {
                return Err(format!("unescaped {:?} in {:?}", &r[..1], s));
            }
        }
    }
    out.push_str(rest);
    Ok(out)
}

pub fn tokenize(h: &str) -> Result<Vec<Tok>, String> {
    let mut v = vec![];
    let mut rest = h;
    while !rest.is_empty() {
        if let Some(r) = rest.strip_prefix("</") {
            let e = r.find('>').ok_or("unterminated closing tag")?;
            let n = &r[..e];
            ensure!(!n.is_empty() && n.bytes().all(|c| c.is_ascii_alphanumeric()), "closing tag {n:?}");
            v.push(Tok::Close(n.into()));
            rest = &r[e + 1..];
        } else if let Some(r) = rest.strip_prefix('<') {
            let e = r.find(|c: char| !c.is_ascii_alphanumeric()).ok_or("unterminated tag")?;
            let n = &r[..e];
            ensure!(!n.is_empty(), "empty tag name before {:?}", &r[..r.len().min(20)]);
            let mut r = &r[e..];
            let mut attrs = vec![];
            loop {
                if let Some(x) = r.strip_prefix("/>") {
                    r = x;
                    break;
                }
                if let Some(x) = r.strip_prefix('>') {
                    r = x;
                    break;
                }
                let Some(x) = r.strip_prefix(' ') else { return Err(format!("malformed tag <{n}…{:?}", &r.chars().take(20).collect::<String>())) };
                let e = x.find(|c: char| !(c.is_ascii_alphanumeric() || matches!(c, ':' | '_' | '-'))).ok_or("unterminated attribute")?;
                let k = &x[..e];
                ensure!(!k.is_empty(), "empty attribute name in <{n}>");
                let Some(x) = x[e..].strip_prefix("=\"") else { return Err(format!("attribute {k:?} of <{n}> has no quoted value")) };
                let e = x.find('"').ok_or("unterminated attribute value")?;
                attrs.push((k.to_string(), unescape(&x[..e], true).map_err(|m| format!("attribute {k} of <{n}>: {m}"))?));
                r = &x[e + 1..];
            }
            v.push(Tok::Open(n.into(), attrs));
            rest = r;
        } else {
            let e = rest.find('<').unwrap_or(rest.len());
            let t = unescape(&rest[..e], false)?;
            v.push(Tok::Text(t));
            rest = &rest[e..];
        }
    }
    Ok(v)
}

const VOID: &[&str] = &["br", "hr", "img", "input"];

pub fn has_raw_html(evs: &[Event]) -> bool {
    evs.iter().any(|e| matches!(e, Event::Start(Container::RawBlock { format } | Container::RawInline { format }, _) if format == "html"))
}

// ------------------------------------------------------------------ the document an event sequence stands for

struct Model<'a, 's> {
    out: Vec<Tok>,
    defs: std::collections::HashMap<String, Vec<&'a Event<'s>>>,
    refs: Vec<String>,
}

fn disp(v: &AttributeValue) -> String {
    unescape_value(&raw_of(v))
}

pub fn raw_of(v: &AttributeValue) -> String {
    // the raw text of a value, through the public Debug form of a one-element set
    let a: Attributes = [(AttributeKind::Class, v.clone())].into_iter().collect();
    let s = format!("{a:?}");
    s[2..s.len() - 1].to_string()
}

pub fn unescape_value(raw: &str) -> String {
    let mut out = String::new();
    let mut it = raw.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\\' {
            if let Some(n) = it.peek().copied().filter(char::is_ascii_punctuation) {
                out.push(n);
                it.next();
                continue;
            }
        }
        out.push(c);
    }
    out
}

/// Reference reading of a set: keys in order of first appearance, classes joined, last value wins.
pub fn ref_pairs(a: &[(AttributeKind, AttributeValue)]) -> Vec<(String, String)> {
    let mut out: Vec<(String, String)> = vec![];
    for (k, v) in a {
        let key = match k {
            AttributeKind::Class => "class",
            AttributeKind::Id => "id",
            AttributeKind::Pair { key } => key,
            AttributeKind::Comment => continue,
        };
        let raw = raw_of(v);
        match out.iter_mut().find(|(x, _)| x == key) {
            Some((_, old)) if key == "class" => {
                if !raw.is_empty() {
                    if !old.is_empty() {
                        old.push(' ');
                    }
                    old.push_str(&raw);
                }
            }
            Some((_, old)) => *old = raw,
            None => out.push((key.to_string(), raw)),
        }
    }
    out
}

impl<'a, 's> Model<'a, 's> {
    fn text(&mut self, s: &str) {
        if s.is_empty() {
            return;
        }
        if let Some(Tok::Text(t)) = self.out.last_mut() {
            t.push_str(s);
        } else {
            self.out.push(Tok::Text(s.to_string()));
        }
    }
    fn reference(&mut self, l: &str) -> usize {
        if let Some(i) = self.refs.iter().position(|x| x == l) {
            i + 1
        } else {
            self.refs.push(l.to_string());
            self.refs.len()
        }
    }

    fn flow(&mut self, evs: &[&'a Event<'s>], epilogue: bool) {
        let mut tight: Vec<bool> = vec![];
        let mut raw = false;
        let mut i = 0;
        let mut pre = 0;
        while i < evs.len() {
            let e = evs[i];
            match e {
                Event::Start(Container::Footnote { label }, _) => {
                    // definitions are moved to the end of the document
                    let mut d = 1;
                    let mut j = i + 1;
                    let mut body = vec![];
                    while d > 0 {
                        match evs[j] {
                            Event::Start(Container::Footnote { .. }, _) => d += 1,
                            Event::End(Container::Footnote { .. }) => d -= 1,
                            _ => {}
                        }
                        if d > 0 {
                            body.push(evs[j]);
                        }
                        j += 1;
                    }
                    self.collect(&body);
                    let own = strip_nested(&body);
                    self.defs.insert(label.to_string(), own);
                    i = j;
                    continue;
                }
                Event::Start(Container::LinkDefinition { .. }, _) => {
                    while !matches!(evs[i], Event::End(Container::LinkDefinition { .. })) {
                        i += 1;
                    }
                    i += 1;
                    continue;
                }
                Event::Start(Container::Image(src, _), a) => {
                    let mut d = 1;
                    let mut j = i + 1;
                    let mut alt = String::new();
                    while d > 0 {
                        match evs[j] {
                            Event::Start(Container::Image(..), _) => d += 1,
                            Event::End(Container::Image(..)) => d -= 1,
                            Event::Str(s) => alt.push_str(s),
                            Event::FootnoteReference(l) => {
                                self.reference(l);
                            }
                            e => alt.push_str(&atom_text(e)),
                        }
                        j += 1;
                    }
                    let mut at = attr_list(a);
                    at.push(("alt".into(), alt));
                    if !src.is_empty() {
                        at.push(("src".into(), src.to_string()));
                    }
                    self.open("img", at);
                    i = j;
                    continue;
                }
                Event::Start(c, a) => {
                    let mut at = attr_list(a);
                    let name = match c {
                        Container::Document => "",
                        Container::Blockquote => "blockquote",
                        Container::List { kind, tight: t } => {
                            tight.push(*t);
                            match kind {
                                ListKind::Ordered { numbering, start, .. } => {
                                    if *start > 1 {
                                        at.push(("start".into(), start.to_string()));
                                    }
                                    let ty = match numbering {
                                        OrderedListNumbering::Decimal => None,
                                        OrderedListNumbering::AlphaLower => Some("a"),
                                        OrderedListNumbering::AlphaUpper => Some("A"),
                                        OrderedListNumbering::RomanLower => Some("i"),
                                        OrderedListNumbering::RomanUpper => Some("I"),
                                    };
                                    if let Some(t) = ty {
                                        at.push(("type".into(), t.into()));
                                    }
                                    "ol"
                                }
                                ListKind::Unordered(_) => "ul",
                                ListKind::Task(_) => {
                                    add_class(&mut at, "task-list");
                                    "ul"
                                }
                            }
                        }
                        Container::ListItem | Container::TaskListItem { .. } => "li",
                        Container::DescriptionList => "dl",
                        Container::DescriptionDetails => "dd",
                        Container::Table => "table",
                        Container::TableRow { .. } => "tr",
                        Container::Section { id } => {
                            if !at.iter().any(|(k, _)| k == "id") {
                                at.push(("id".into(), id.to_string()));
                            }
                            "section"
                        }
                        Container::Div { class } => {
                            if !class.is_empty() {
                                add_class(&mut at, class);
                            }
                            "div"
                        }
                        Container::Paragraph => {
                            if tight.last() == Some(&true) {
                                ""
                            } else {
                                "p"
                            }
                        }
                        Container::Heading { level, has_section, id } => {
                            if !has_section && !at.iter().any(|(k, _)| k == "id") {
                                at.push(("id".into(), id.to_string()));
                            }
                            self.open(&format!("h{level}"), at);
                            i += 1;
                            continue;
                        }
                        Container::TableCell { alignment, head } => {
                            let al = match alignment {
                                Alignment::Unspecified => None,
                                Alignment::Left => Some("left"),
                                Alignment::Center => Some("center"),
                                Alignment::Right => Some("right"),
                            };
                            if let Some(x) = al {
                                at.push(("style".into(), format!("text-align: {x};")));
                            }
                            if *head {
                                "th"
                            } else {
                                "td"
                            }
                        }
                        Container::Caption => "caption",
                        Container::DescriptionTerm => "dt",
                        Container::CodeBlock { language } => {
                            self.open("pre", at);
                            at = vec![];
                            if !language.is_empty() {
                                at.push(("class".into(), format!("language-{language}")));
                            }
                            pre += 1;
                            "code"
                        }
                        Container::Span => "span",
                        Container::Math { display } => {
                            add_class(&mut at, if *display { "math display" } else { "math inline" });
                            self.open("span", at);
                            self.text(if *display { "\\[" } else { "\\(" });
                            i += 1;
                            continue;
                        }
                        Container::Link(dst, ty) => {
                            match ty {
                                LinkType::Span(SpanLinkType::Unresolved) => {}
                                LinkType::Email => at.push(("href".into(), format!("mailto:{dst}"))),
                                _ => at.push(("href".into(), dst.to_string())),
                            }
                            "a"
                        }
                        Container::Verbatim => {
                            pre += 1;
                            "code"
                        }
                        Container::RawBlock { .. } | Container::RawInline { .. } => {
                            raw = true;
                            ""
                        }
                        Container::Subscript => "sub",
                        Container::Superscript => "sup",
                        Container::Insert => "ins",
                        Container::Delete => "del",
                        Container::Strong => "strong",
                        Container::Emphasis => "em",
                        Container::Mark => "mark",
                        Container::Footnote { .. } | Container::LinkDefinition { .. } | Container::Image(..) => unreachable!(),
                    };
                    if !name.is_empty() {
                        self.open(name, at);
                    }
                    if let Container::TaskListItem { checked } = c {
                        let mut at = vec![("disabled".to_string(), String::new()), ("type".into(), "checkbox".into())];
                        if *checked {
                            at.push(("checked".into(), String::new()));
                        }
                        self.open("input", at);
                    }
                }
                Event::End(c) => {
                    let name = match c {
                        Container::Document => "",
                        Container::Blockquote => "blockquote",
                        Container::List { kind, .. } => {
                            tight.pop();
                            if matches!(kind, ListKind::Ordered { .. }) {
                                "ol"
                            } else {
                                "ul"
                            }
                        }
                        Container::ListItem | Container::TaskListItem { .. } => "li",
                        Container::DescriptionList => "dl",
                        Container::DescriptionDetails => "dd",
                        Container::Table => "table",
                        Container::TableRow { .. } => "tr",
                        Container::Section { .. } => "section",
                        Container::Div { .. } => "div",
                        Container::Paragraph => {
                            if tight.last() == Some(&true) {
                                ""
                            } else {
                                if epilogue && evs[i + 1..].iter().all(|e| matches!(e, Event::Blankline | Event::Escape)) {
                                    self.backlink();
                                }
                                "p"
                            }
                        }
                        Container::Heading { level, .. } => {
                            self.out.push(Tok::Close(format!("h{level}")));
                            i += 1;
                            continue;
                        }
                        Container::TableCell { head, .. } => {
                            if *head {
                                "th"
                            } else {
                                "td"
                            }
                        }
                        Container::Caption => "caption",
                        Container::DescriptionTerm => "dt",
                        Container::CodeBlock { .. } => {
                            pre -= 1;
                            self.out.push(Tok::Close("code".into()));
                            "pre"
                        }
                        Container::Span => "span",
                        Container::Math { display } => {
                            self.text(if *display { "\\]" } else { "\\)" });
                            "span"
                        }
                        Container::Link(..) => "a",
                        Container::Verbatim => {
                            pre -= 1;
                            "code"
                        }
                        Container::RawBlock { .. } | Container::RawInline { .. } => {
                            raw = false;
                            ""
                        }
                        Container::Subscript => "sub",
                        Container::Superscript => "sup",
                        Container::Insert => "ins",
                        Container::Delete => "del",
                        Container::Strong => "strong",
                        Container::Emphasis => "em",
                        Container::Mark => "mark",
                        Container::Footnote { .. } | Container::LinkDefinition { .. } | Container::Image(..) => unreachable!(),
                    };
                    if !name.is_empty() {
                        self.out.push(Tok::Close(name.into()));
                    }
                }
                Event::Str(s) => {
                    if !raw {
                        self.text(s);
                    }
                }
                Event::FootnoteReference(l) => {
                    let n = self.reference(l);
                    self.open("a", vec![("id".into(), format!("fnref{n}")), ("href".into(), format!("#fn{n}")), ("role".into(), "doc-noteref".into())]);
                    self.open("sup", vec![]);
                    self.text(&n.to_string());
                    self.out.push(Tok::Close("sup".into()));
                    self.out.push(Tok::Close("a".into()));
                }
                Event::Hardbreak => self.open("br", vec![]),
                Event::ThematicBreak(a) => {
                    let at = attr_list(a);
                    self.open("hr", at)
                }
                e => {
                    let t = atom_text(e);
                    self.text(&t)
                }
            }
            i += 1;
        }
        let _ = pre;
    }

    fn backlink(&mut self) {
        self.out.push(Tok::Open("BACKLINK".into(), vec![]));
    }

    /// definitions inside a definition
    fn collect(&mut self, body: &[&'a Event<'s>]) {
        let mut i = 0;
        while i < body.len() {
            if let Event::Start(Container::Footnote { label }, _) = body[i] {
                let mut d = 1;
                let mut j = i + 1;
                while d > 0 {
                    match body[j] {
                        Event::Start(Container::Footnote { .. }, _) => d += 1,
                        Event::End(Container::Footnote { .. }) => d -= 1,
                        _ => {}
                    }
                    j += 1;
                }
                let inner: Vec<_> = body[i + 1..j - 1].to_vec();
                self.collect(&inner);
                let own = strip_nested(&inner);
                self.defs.insert(label.to_string(), own);
                i = j;
            } else {
                i += 1;
            }
        }
    }

    fn open(&mut self, n: &str, mut a: Vec<(String, String)>) {
        order(&mut a);
        self.out.push(Tok::Open(n.into(), a));
    }
}

fn strip_nested<'a, 's>(body: &[&'a Event<'s>]) -> Vec<&'a Event<'s>> {
    let mut d = 0;
    let mut v = vec![];
    for e in body {
        match e {
            Event::Start(Container::Footnote { .. }, _) => d += 1,
            Event::End(Container::Footnote { .. }) => d -= 1,
            _ if d == 0 => v.push(*e),
            _ => {}
        }
    }
    v
}

fn add_class(at: &mut Vec<(String, String)>, c: &str) {
    if let Some((_, v)) = at.iter_mut().find(|(k, _)| k == "class") {
        v.push(' ');
        v.push_str(c);
    } else {
        at.push(("class".into(), c.into()));
    }
}

fn attr_list(a: &Attributes) -> Vec<(String, String)> {
    ref_pairs(a).into_iter().map(|(k, r)| (k, unescape_value(&r))).collect()
}

fn atom_text(e: &Event) -> String {
    match e {
        Event::Symbol(s) => format!(":{s}:"),
        Event::LeftSingleQuote => "‘".into(),
        Event::RightSingleQuote => "’".into(),
        Event::LeftDoubleQuote => "“".into(),
        Event::RightDoubleQuote => "”".into(),
        Event::Ellipsis => "…".into(),
        Event::EnDash => "–".into(),
        Event::EmDash => "—".into(),
        Event::NonBreakingSpace => "\u{a0}".into(),
        Event::Softbreak => "\n".into(),
        Event::Hardbreak => "\n".into(),
        _ => String::new(),
    }
}

/// Attributes in the order written, followed by those that the renderer may add, sorted.
fn order(a: &mut [(String, String)]) {
    const ADDED: &[&str] = &["alt", "class", "href", "id", "role", "src", "start", "style", "type"];
    // (stable; one of those that is also written by hand comes twice, in either order)
    a.sort_by_key(|(k, v)| ADDED.iter().position(|x| x == k).map_or((0, String::new()), |i| (i + 1, v.clone())));
}

fn norm(toks: Vec<Tok>, exact: bool) -> Vec<Tok> {
    // without line breaks between blocks (minified) text is compared exactly, otherwise without white space outside code
    let mut out: Vec<Tok> = vec![];
    let mut code = 0;
    for t in toks {
        match t {
            Tok::Text(s) => {
                let s: String = if exact || code > 0 { s } else { s.chars().filter(|c| !c.is_ascii_whitespace()).collect() };
                if s.is_empty() {
                    continue;
                }
                if let Some(Tok::Text(p)) = out.last_mut() {
                    p.push_str(&s);
                } else {
                    out.push(Tok::Text(s));
                }
            }
            Tok::Open(n, a) => {
                if n == "code" {
                    code += 1;
                }
                let mut a: Vec<_> = a
                    .into_iter()
                    .map(|(k, v)| {
                        let v = if k == "alt" && !exact { v.chars().filter(|c| !c.is_ascii_whitespace()).collect() } else { v };
                        (k, v)
                    })
                    .collect();
                order(&mut a);
                out.push(Tok::Open(n, a));
            }
            Tok::Close(n) => {
                if n == "code" {
                    code -= 1;
                }
                out.push(Tok::Close(n));
            }
        }
    }
    out
}

pub fn model(evs: &[Event]) -> (Vec<Tok>, usize) {
    let mut m = Model { out: vec![], defs: Default::default(), refs: vec![] };
    let v: Vec<&Event> = evs.iter().collect();
    m.flow(&v, false);
    let mut n = 0;
    if !m.refs.is_empty() {
        m.open("section", vec![("role".into(), "doc-endnotes".into())]);
        m.open("hr", vec![]);
        m.open("ol", vec![]);
        while n < m.refs.len() {
            let l = m.refs[n].clone();
            n += 1;
            m.open("li", vec![("id".into(), format!("fn{n}"))]);
            let body = m.defs.remove(&l).unwrap_or_default();
            let at = m.out.len();
            m.flow(&body, true);
            if !m.out[at..].iter().any(|t| matches!(t, Tok::Open(n, _) if n == "BACKLINK")) {
                m.open("p", vec![]);
                m.backlink();
                m.out.push(Tok::Close("p".into()));
            }
            let k = at + m.out[at..].iter().position(|t| matches!(t, Tok::Open(n, _) if n == "BACKLINK")).unwrap();
            m.out.splice(
                k..=k,
                [
                    Tok::Open("a".into(), vec![("href".into(), format!("#fnref{n}")), ("role".into(), "doc-backlink".into())]),
                    Tok::Text("\u{21a9}\u{fe0e}".into()),
                    Tok::Close("a".into()),
                ],
            );
            m.out.push(Tok::Close("li".into()));
        }
        m.out.push(Tok::Close("ol".into()));
        m.out.push(Tok::Close("section".into()));
    }
    (m.out, n)
}

fn render(evs: &[Event], i: usize) -> String {
    let mut s = String::new();
    renderer(i).push_events(evs.iter().cloned(), &mut s).unwrap();
    s
}

fn plain<'s>(src: &'s str) -> Vec<Event<'s>> {
    events(src).into_iter().map(|(e, _)| e).collect()
}

// ------------------------------------------------------------------ H01 escaping, H02 structure, H03 footnotes

fn compare(src: &str, keep: &dyn Fn(&Tok) -> bool, what: &str) -> Res {
    let evs = plain(src);
    if has_raw_html(&evs) {
        return Ok(());
    }
    for k in 0..2 {
        let h = render(&evs, k);
        let x = k == 1; // minified
        let got: Vec<Tok> = norm(tokenize(&h).map_err(|e| format!("{e}\noutput: {h:?}"))?, x);
        let (want, _) = model(&evs);
        let want = norm(want, x);
        let g: Vec<Tok> = norm(got.into_iter().filter(|t| keep(t)).collect(), x);
        let w: Vec<Tok> = norm(want.into_iter().filter(|t| keep(t)).collect(), x);
        if g != w {
            let i = g.iter().zip(w.iter()).take_while(|(a, b)| a == b).count();
            return Err(format!("{what}: item {i} of the output is {:?}, the events ask for {:?}\noutput: {h:?}", g.get(i), w.get(i)));
        }
    }
    Ok(())
}

/// text and attribute values survive a round trip through HTML
pub fn h01(src: &str) -> Res {
    compare(src, &|t| !matches!(t, Tok::Close(_)), "text and attribute values")
}

/// every tag closes, in order
pub fn h02(src: &str) -> Res {
    let evs = plain(src);
    if !has_raw_html(&evs) {
        for k in 0..2 {
            let h = render(&evs, k);
            let toks = tokenize(&h).map_err(|e| format!("{e}\noutput: {h:?}"))?;
            let mut st: Vec<String> = vec![];
            for t in &toks {
                match t {
                    Tok::Open(n, _) if !VOID.contains(&n.as_str()) => {
                        if n == "p" || n == "li" || n == "td" || n == "th" || n == "tr" {
                            let ok = match n.as_str() {
                                "li" => st.last().is_some_and(|p| p == "ol" || p == "ul"),
                                "tr" => st.last().is_some_and(|p| p == "table"),
                                "td" | "th" => st.last().is_some_and(|p| p == "tr"),
                                _ => !st.iter().any(|p| p == "p"),
                            };
                            ensure!(ok, "<{n}> inside {st:?}\noutput: {h:?}");
                        }
                        st.push(n.clone());
                    }
                    Tok::Close(n) => {
                        let o = st.pop();
                        ensure!(o.as_ref() == Some(n), "</{n}> closes {o:?}\noutput: {h:?}");
                    }
                    _ => {}
                }
            }
            ensure!(st.is_empty(), "elements never closed: {st:?}\noutput: {h:?}");
        }
        compare(src, &|t| !matches!(t, Tok::Text(_)), "elements")?;
    }
    Ok(())
}

pub fn h03(src: &str) -> Res {
    let evs = plain(src);
    if has_raw_html(&evs) {
        return Ok(());
    }
    let h = render(&evs, 0);
    let toks = tokenize(&h).map_err(|e| format!("{e}\noutput: {h:?}"))?;
    let mut refs: Vec<usize> = vec![];
    let mut notes: Vec<usize> = vec![];
    let mut backs: Vec<usize> = vec![];
    for (i, t) in toks.iter().enumerate() {
        if let Tok::Open(n, a) = t {
            let get = |k: &str| a.iter().find(|(x, _)| x == k).map(|(_, v)| v.as_str());
            if n == "a" && get("role") == Some("doc-noteref") {
                let num: usize = get("href").and_then(|h| h.strip_prefix("#fn")).and_then(|x| x.parse().ok()).ok_or("noteref href")?;
                ensure!(get("id") == Some(&format!("fnref{num}")), "reference id {:?} for note {num}", get("id"));
                ensure!(toks.get(i + 2) == Some(&Tok::Text(num.to_string())), "reference to note {num} displays {:?}", toks.get(i + 2));
                refs.push(num);
            }
            if n == "a" && get("role") == Some("doc-backlink") {
                backs.push(get("href").and_then(|h| h.strip_prefix("#fnref")).and_then(|x| x.parse().ok()).ok_or("backlink href")?);
            }
            if n == "li" && i > 0 {
                if let Some(x) = get("id").and_then(|x| x.strip_prefix("fn")) {
                    if let Ok(x) = x.parse() {
                        if backs.len() == notes.len() {
                            notes.push(x);
                        }
                    }
                }
            }
        }
    }
    let in_alt = {
        let mut d = 0;
        evs.iter().any(|e| {
            match e {
                Event::Start(Container::Image(..), _) => d += 1,
                Event::End(Container::Image(..)) => d -= 1,
                _ => {}
            }
            d > 0 && matches!(e, Event::FootnoteReference(_))
        })
    };
    if !in_alt {
        let mut max = 0;
        for r in &refs {
            ensure!(*r >= 1 && *r <= max + 1, "footnote numbers {refs:?} do not follow the order of first reference");
            max = max.max(*r);
        }
        ensure!(notes.len() == max, "{} notes for {max} distinct references\noutput: {h:?}", notes.len());
    }
    ensure!(notes.iter().enumerate().all(|(i, n)| *n == i + 1), "notes are numbered {notes:?}\noutput: {h:?}");
    ensure!(backs == notes, "back links {backs:?} for notes {notes:?}\noutput: {h:?}");
    compare(src, &|_| true, "document with notes")
}

// ------------------------------------------------------------------ H04 output adapters

struct Sink {
    out: Vec<u8>,
    chunk: usize,
    fail_at: Option<usize>,
    fails: usize,
    interrupt: bool,
    calls: usize,
    kind: std::io::ErrorKind,
}

impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.interrupt && self.calls % 3 == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        if let Some(f) = self.fail_at {
            if self.out.len() >= f {
                self.fails += 1;
                return Err(std::io::Error::new(self.kind, "sink full"));
            }
        }
        let mut n = b.len().min(self.chunk);
        if let Some(f) = self.fail_at {
            n = n.min(f - self.out.len());
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

struct FmtSink {
    out: String,
    left: usize,
    failed: bool,
}

impl std::fmt::Write for FmtSink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.left < s.len() {
            self.failed = true;
            return Err(std::fmt::Error);
        }
        assert!(!self.failed, "written to after it reported an error");
        self.left -= s.len();
        self.out.push_str(s);
        Ok(())
    }
}

const KINDS: &[std::io::ErrorKind] = {
    use std::io::ErrorKind::*;
    &[
        Other, NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable,
        BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Unsupported, UnexpectedEof, OutOfMemory,
        StorageFull, NotSeekable, QuotaExceeded, FileTooLarge, ResourceBusy, ExecutableFileBusy, Deadlock, ReadOnlyFilesystem, HostUnreachable,
        NetworkUnreachable, NetworkDown, NotADirectory, IsADirectory, DirectoryNotEmpty, StaleNetworkFileHandle, CrossesDevices, TooManyLinks,
        ArgumentListTooLong,
    ]
};

pub fn h04(src: &str) -> Res {
    let evs = plain(src);
    for k in [0usize, 1, 3] {
        let all = render(&evs, k);
        let mut one = String::new();
        let mut r = renderer(k);
        for e in &evs {
            r.push_event(e.clone(), &mut one).map_err(|_| "push_event fails on a String")?;
        }
        ensure!(one == all, "push_event one by one gives other text than push_events");
        for chunk in [usize::MAX, 1, 7] {
            let mut s = Sink { out: vec![], chunk, fail_at: None, fails: 0, interrupt: chunk == 7, calls: 0, kind: KINDS[0] };
            renderer(k).write_events(evs.iter().cloned(), &mut s).map_err(|e| format!("write_events fails: {e}"))?;
            ensure!(s.out == all.as_bytes(), "write_events (chunks of {chunk}) gives other bytes than push_events");
        }
        let mut s = Sink { out: vec![], chunk: usize::MAX, fail_at: None, fails: 0, interrupt: false, calls: 0, kind: KINDS[0] };
        let mut r = renderer(k);
        for e in &evs {
            r.write_event(e.clone(), &mut s).map_err(|e| format!("write_event fails: {e}"))?;
        }
        ensure!(s.out == all.as_bytes(), "write_event one by one gives other bytes than push_events");
        // a sink that fails after some bytes
        let mut at = vec![0, all.len() / 2, all.len().saturating_sub(1)];
        at.dedup();
        // every kind of error in turn, depending on the document
        let base = src.bytes().fold(all.len(), |a, b| a.wrapping_mul(31).wrapping_add(b as usize));
        for (i, f) in at.into_iter().enumerate() {
            if f >= all.len() {
                continue;
            }
            let kind = KINDS[(base + i) % KINDS.len()];
            let mut s = Sink { out: vec![], chunk: usize::MAX, fail_at: Some(f), fails: 0, interrupt: false, calls: 0, kind };
            let e = renderer(k).write_events(evs.iter().cloned(), &mut s);
            match e {
                Ok(()) => return Err(format!("write_events reports success although the sink failed after {f} of {} bytes", all.len())),
                Err(e) => ensure!(e.kind() == kind && e.to_string() == "sink full", "write_events reports {e:?} instead of the sink's error"),
            }
            ensure!(s.fails == 1, "written to {} times after the sink failed", s.fails - 1);
            ensure!(s.out == all.as_bytes()[..f], "bytes written before the failure differ");
            let mut s = Sink { out: vec![], chunk: 5, fail_at: Some(f), fails: 0, interrupt: i == 1, calls: 0, kind };
            let mut r = renderer(k);
            let mut err = None;
            for e in &evs {
                if let Err(e) = r.write_event(e.clone(), &mut s) {
                    err = Some(e);
                    break;
                }
            }
            match err {
                None => return Err(format!("write_event reports success although the sink failed after {f} of {} bytes", all.len())),
                Some(e) => ensure!(e.kind() == kind && e.to_string() == "sink full", "write_event reports {e:?} instead of the sink's error"),
            }
            ensure!(s.fails == 1 && s.out == all.as_bytes()[..f], "write_event: bytes written before the failure differ");
            let mut s = FmtSink { out: String::new(), left: f, failed: false };
            ensure!(renderer(k).push_events(evs.iter().cloned(), &mut s).is_err(), "push_events hides the error of the sink");
            ensure!(all.starts_with(&s.out), "text written before the failure differs");
            let mut s = FmtSink { out: String::new(), left: f, failed: false };
            let mut r = renderer(k);
            let mut err = false;
            for e in &evs {
                if r.push_event(e.clone(), &mut s).is_err() {
                    err = true;
                    break;
                }
            }
            ensure!(err, "push_event hides the error of the sink");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ H05 indentation

/// Inline text or attributes bring newlines of their own into the output.
fn inline_newline(evs: &[Event]) -> bool {
    let mut code = false;
    evs.iter().any(|e| match e {
        Event::Start(c, a) => {
            code = matches!(c, Container::CodeBlock { .. } | Container::RawBlock { .. });
            a.iter().any(|(_, v)| v.to_string().contains('\n'))
                || matches!(c, Container::Link(u, _) | Container::Image(u, _) if u.contains('\n'))
        }
        Event::ThematicBreak(a) => a.iter().any(|(_, v)| v.to_string().contains('\n')),
        Event::Str(s) => !code && s.contains('\n'),
        _ => false,
    })
}

pub fn h05(src: &str) -> Res {
    let evs = plain(src);
    if src.contains('\u{1}') {
        return Ok(());
    }
    let def = render(&evs, 0);
    let min = render(&evs, 1);
    let strip = |s: &str| s.replace('\n', "");
    ensure!(strip(&def) == strip(&min), "default and minified output differ in more than newlines\n{def:?}\n{min:?}");
    for init in 0..2usize {
        let ind = render(&evs, 2 + init);
        let unind = ind.replace('\u{1}', "");
        ensure!(unind == def, "indented output differs in more than indentation\n{ind:?}\n{def:?}");
        if has_raw_html(&evs) || inline_newline(&evs) {
            continue;
        }
        let multi = {
            let mut s = String::new();
            html::Renderer::indented(html::Indentation { string: "\u{1}\u{1}".into(), initial_level: init }).push_events(evs.iter().cloned(), &mut s).unwrap();
            s
        };
        ensure!(multi == ind.replace('\u{1}', "\u{1}\u{1}"), "indentation string is not used uniformly");
        // a block tag that starts a line is indented by the number of open block containers
        let mut depth = init;
        let mut notes = false;
        let mut in_pre = false;
        for (ln, l) in ind.split('\n').enumerate() {
            let k = l.bytes().take_while(|c| *c == 1).count();
            let t = &l[k..];
            if in_pre {
                ensure!(k == 0, "line {ln} {l:?} inside code is indented");
            }
            let name: String = t.trim_start_matches(['<', '/']).chars().take_while(|c| c.is_ascii_alphanumeric()).collect();
            let cont = matches!(name.as_str(), "blockquote" | "ul" | "ol" | "li" | "dl" | "dd" | "table" | "tr" | "section" | "div");
            if !in_pre {
                if t.contains("role=\"doc-endnotes\"") {
                    notes = true;
                }
                if t.starts_with("</") && cont && !notes {
                    ensure!(depth > init, "more block containers closed than opened at line {ln}");
                    depth -= 1;
                }
                if t.starts_with('<') && !notes {
                    ensure!(k == depth, "line {ln} {l:?} is indented {k} times inside {depth} levels");
                } else if !t.is_empty() && !notes {
                    ensure!(k == depth, "line {ln} {l:?} is indented {k} times inside {depth} levels");
                }
                if t.starts_with('<') && !t.starts_with("</") && cont && !notes {
                    depth += 1;
                }
            }
            if t.contains("<pre") || l.contains("<code") {
                in_pre = true;
            }
            if l.contains("</code>") {
                in_pre = l.rfind("<code") > l.rfind("</code>");
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ A01 attribute grammar

/// Reference reader of one or more attribute blocks. `Ok(elements)` or `Err(position of the byte that
/// cannot continue)`, where the position is the length of the input if it ends too early.
pub fn ref_attrs(s: &str) -> Result<Vec<(u8, String, String)>, usize> {
    let t = s.trim_end_matches(|c: char| c.is_ascii_whitespace());
    let b = t.as_bytes();
    let name = |c: u8| c.is_ascii_alphanumeric() || matches!(c, b':' | b'_' | b'-');
    let mut v: Vec<(u8, String, String)> = vec![];
    let mut i = 0;
    loop {
        if i >= b.len() || b[i] != b'{' {
            return Err(i);
        }
        i += 1;
        // inside one block
        loop {
            while i < b.len() && b[i].is_ascii_whitespace() {
                i += 1;
            }
            if i >= b.len() {
                return Err(i);
            }
            match b[i] {
                b'}' => break,
                k @ (b'.' | b'#') => {
                    i += 1;
                    let st = i;
                    while i < b.len() && name(b[i]) {
                        i += 1;
                    }
                    if st == i || i >= b.len() || !(b[i].is_ascii_whitespace() || b[i] == b'}') {
                        return Err(i);
                    }
                    v.push((k, String::new(), t[st..i].to_string()));
                }
                b'%' => {
                    i += 1;
                    let st = i;
                    while i < b.len() && b[i] != b'%' && b[i] != b'}' {
                        i += 1;
                    }
                    if i >= b.len() {
                        return Err(i);
                    }
                    v.push((b'%', String::new(), t[st..i].to_string()));
                    if b[i] == b'%' {
                        i += 1;
                    }
                }
                c if name(c) => {
                    let st = i;
                    while i < b.len() && name(b[i]) {
                        i += 1;
                    }
                    let key = t[st..i].to_string();
                    if i >= b.len() || b[i] != b'=' {
                        return Err(i);
                    }
                    i += 1;
                    if i >= b.len() {
                        return Err(i);
                    }
                    let mut val = String::new();
                    if b[i] == b'"' {
                        i += 1;
                        let st = i;
                        let mut newline = false;
                        loop {
                            if i >= b.len() {
                                return Err(i);
                            }
                            match b[i] {
                                b'"' => break,
                                b'\n' => newline = true,
                                b'\\' if !newline && i + 1 < b.len() && b[i + 1] != b'\n' => i += 1,
                                b'\\' if !newline && i + 1 >= b.len() => return Err(i + 1),
                                _ => {}
                            }
                            i += 1;
                        }
                        // lines are joined by one space
                        val.push_str(&t[st..i].split('\n').filter(|l| !l.is_empty()).collect::<Vec<_>>().join(" "));
                        i += 1;
                    } else {
                        let st = i;
                        while i < b.len() && name(b[i]) {
                            i += 1;
                        }
                        if st == i || i >= b.len() || !(b[i].is_ascii_whitespace() || b[i] == b'}') {
                            return Err(i);
                        }
                        val.push_str(&t[st..i]);
                    }
                    v.push((b'=', key, val));
                }
                _ => return Err(i),
            }
        }
        i += 1; // }
        if i == b.len() {
            return Ok(v);
        }
        if b[i] != b'{' {
            return Err(i);
        }
    }
}

pub fn a01(s: &str) -> Res {
    let got = Attributes::try_from(s);
    let want = ref_attrs(s);
    match (got, want) {
        (Ok(a), Ok(w)) => {
            let g: Vec<(u8, String, String)> = a
                .iter()
                .map(|(k, v)| {
                    let (t, key) = match k {
                        AttributeKind::Class => (b'.', String::new()),
                        AttributeKind::Id => (b'#', String::new()),
                        AttributeKind::Pair { key } => (b'=', key.to_string()),
                        AttributeKind::Comment => (b'%', String::new()),
                    };
                    (t, key, raw_of(v))
                })
                .collect();
            // newlines inside comments are normalised, compare those without them
            let nl = |v: &[(u8, String, String)]| -> Vec<(u8, String, String)> {
                v.iter().map(|(t, k, x)| (*t, k.clone(), if *t == b'%' { x.replace('\n', "") } else { x.clone() })).collect()
            };
            ensure!(nl(&g) == nl(&w), "{s:?} parsed as {g:?} instead of {w:?}");
        }
        (Err(e), Err(w)) => ensure!(e.pos == w, "{s:?}: reported invalid at {} instead of {w}", e.pos),
        (g, w) => return Err(format!("{s:?}: got {g:?}, the grammar says {w:?}")),
    }
    Ok(())
}

// ------------------------------------------------------------------ A02 look-ups

/// A set, one element per line: `.value`, `#value`, `key=value` or `%value`; a `!` at the end of a line makes
/// its strings owned.
pub fn gen_set(r: &mut Rng) -> String {
    const V: &[&str] = &["", "a", "b", "a b", "\\\"", "c", "<&>", "é"];
    const K: &[&str] = &["k", "l", "class", "id", "clas", "", "K", "classs", "m", "n"];
    let mut s = String::new();
    for _ in 0..if r.chance(1, 8) { r.range(8, 30) } else { r.range(0, 7) } {
        let v = *r.pick(V);
        match r.below(5) {
            0 | 1 => s.push('.'),
            2 => s.push('#'),
            3 => s.push_str(&format!("{}=", r.pick(K))),
            _ => s.push('%'),
        }
        s.push_str(v);
        if r.chance(1, 2) {
            s.push('!');
        }
        s.push('\n');
    }
    s
}

pub fn read_set(s: &str) -> Vec<(AttributeKind<'static>, AttributeValue<'static>)> {
    let leak = |s: &str| -> &'static str {
        // borrowed strings of the program's lifetime, shared between equal ones
        thread_local!(static POOL: std::cell::RefCell<std::collections::HashSet<&'static str>> = Default::default());
        POOL.with(|p| {
            let mut p = p.borrow_mut();
            if let Some(x) = p.get(s) {
                return *x;
            }
            let x: &'static str = Box::leak(s.to_string().into_boxed_str());
            p.insert(x);
            x
        })
    };
    s.lines()
        .filter(|l| !l.is_empty())
        .map(|l| {
            let (l, owned) = match l.strip_suffix('!') {
                Some(l) => (l, true),
                None => (l, false),
            };
            let val = |v: &str| -> AttributeValue<'static> {
                if owned {
                    v.to_string().into()
                } else {
                    leak(v).into()
                }
            };
            let rest = l.get(1..).unwrap_or("");
            match l.chars().next() {
                Some('.') => (AttributeKind::Class, val(rest)),
                Some('#') => (AttributeKind::Id, val(rest)),
                Some('%') => (AttributeKind::Comment, val(rest)),
                _ => {
                    let (k, v) = l.split_once('=').unwrap_or((l, ""));
                    (AttributeKind::Pair { key: if owned { k.to_string().into() } else { leak(k).into() } }, val(v))
                }
            }
        })
        .collect()
}

pub fn a02(v: &[(AttributeKind<'static>, AttributeValue<'static>)]) -> Res {
    let a: Attributes = v.iter().cloned().collect();
    ensure!(Vec::from(a.clone()) == v, "collected set differs from its elements");
    let want = ref_pairs(v);
    let got: Vec<(String, String)> = a.unique_pairs().map(|(k, v)| (k.to_string(), raw_of(&v))).collect();
    ensure!(got == want, "unique_pairs of {a:?}: {got:?} instead of {want:?}");
    let mut it = a.unique_pairs();
    while it.next().is_some() {}
    ensure!(it.next().is_none(), "unique_pairs yields again after its end");
    let mut keys: Vec<String> = ["class", "id", "k", "l", "clas", "", "K", "classs", "zzz"].iter().map(|s| s.to_string()).collect();
    for (k, _) in &want {
        keys.push(k.clone());
        keys.push(format!("{k}s"));
    }
    for k in keys.iter().map(String::as_str) {
        let w = want.iter().find(|(x, _)| x == k).map(|(_, v)| v.clone());
        ensure!(a.contains_key(k) == w.is_some(), "contains_key({k:?}) of {a:?} is {}", a.contains_key(k));
        let g = a.get_value(k).map(|v| raw_of(&v));
        let w = if k == "class" { w.filter(|v| !v.is_empty()) } else { w };
        ensure!(g == w, "get_value({k:?}) of {a:?} is {g:?} instead of {w:?}");
    }
    Ok(())
}

// ------------------------------------------------------------------ A03 displayed values

pub fn a03(raw: &str) -> Res {
    for v in [AttributeValue::from(raw), AttributeValue::from(raw.to_string())] {
        let parts: String = v.parts().collect();
        let want = unescape_value(raw);
        ensure!(parts == want, "parts of {raw:?} join to {parts:?} instead of {want:?}");
        ensure!(v.to_string() == want, "{raw:?} displays as {:?} instead of {want:?}", v.to_string());
        let mut it = v.parts();
        let mut n = 0;
        while it.next().is_some() {
            n += 1;
            ensure!(n <= raw.len() + 1, "parts of {raw:?} do not end");
        }
        ensure!(it.next().is_none(), "parts of {raw:?} continue after their end");
        let _ = disp(&v);
    }
    Ok(())
}
