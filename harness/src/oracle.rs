//! What must hold of one input, per property. Every oracle takes an input and returns `Err(reason)`
//! when the real code (public API of the crate in /repo) breaks the property on it.

use jotdown::*;
use std::ops::Range;

pub type Evs<'s> = Vec<(Event<'s>, Range<usize>)>;
pub type Res = Result<(), String>;

pub fn events(src: &str) -> Evs<'_> {
    let cap = 64 * src.len() + 1000;
    let mut v = Vec::new();
    for e in Parser::new(src).into_offset_iter() {
        v.push(e);
        if v.len() > cap {
            panic!("more than {cap} events for {} bytes: no termination", src.len());
        }
    }
    v
}

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

fn is_leaf(c: &Container) -> bool {
    matches!(
        c,
        Container::Paragraph
            | Container::Heading { .. }
            | Container::TableCell { .. }
            | Container::Caption
            | Container::DescriptionTerm
            | Container::LinkDefinition { .. }
            | Container::RawBlock { .. }
            | Container::CodeBlock { .. }
    )
}

fn verbatim_like(c: &Container) -> bool {
    matches!(
        c,
        Container::Verbatim
            | Container::Math { .. }
            | Container::RawInline { .. }
            | Container::CodeBlock { .. }
            | Container::RawBlock { .. }
            | Container::LinkDefinition { .. }
            | Container::Link(_, LinkType::AutoLink | LinkType::Email)
    )
}

// ------------------------------------------------------------------ P01 totality

pub fn p01(src: &str) -> Res {
    let evs = events(src);
    let n = evs.len();
    let plain: Vec<Event> = Parser::new(src).collect();
    ensure!(plain.len() == n, "plain iteration yields {} events, offset iteration {n}", plain.len());
    for (i, (p, (e, _))) in plain.iter().zip(evs.iter()).enumerate() {
        ensure!(p == e, "event {i} differs between plain and offset iteration: {p:?} / {e:?}");
    }
    for i in 0..3 {
        let mut s = String::new();
        let mut r = renderer(i);
        r.push_events(evs.iter().map(|(e, _)| e.clone()), &mut s)
            .map_err(|_| format!("renderer {i} reports an error although the sink never fails"))?;
    }
    Ok(())
}

pub fn renderer<'s>(i: usize) -> html::Renderer<'s> {
    match i {
        0 => html::Renderer::default(),
        1 => html::Renderer::minified(),
        _ => html::Renderer::indented(html::Indentation { string: "\u{1}".into(), initial_level: i - 2 }),
    }
}

// ------------------------------------------------------------------ P02 balanced tree

pub fn p02(src: &str) -> Res {
    let evs = events(src);
    ensure!(matches!(evs.first(), Some((Event::Start(Container::Document, _), _))), "first event is not Start(Document)");
    ensure!(matches!(evs.last(), Some((Event::End(Container::Document), _))), "last event is not End(Document)");
    let mut open: Vec<(Container, usize)> = vec![]; // container, number of child starts
    for (i, (e, _)) in evs.iter().enumerate() {
        if i > 0 {
            ensure!(!open.is_empty(), "event {i} {e:?} after the document is closed");
        }
        let parent = open.last().map(|(c, _)| c.clone());
        match e {
            Event::Start(c, _) => {
                if i > 0 {
                    let p = parent.as_ref().unwrap();
                    let inl = !c.is_block();
                    ensure!(!(i > 0 && *c == Container::Document), "nested document");
                    let pl = is_leaf(p);
                    let pb = *p == Container::Document || p.is_block_container();
                    if inl {
                        ensure!(!pb, "inline container {c:?} directly in block container {p:?}");
                        ensure!(!verbatim_like(p), "container {c:?} inside verbatim {p:?}");
                    } else {
                        ensure!(pb, "block container {c:?} inside {p:?}");
                        let ok = match p {
                            Container::List { kind: ListKind::Task(_), .. } => matches!(c, Container::TaskListItem { .. }),
                            Container::List { .. } => matches!(c, Container::ListItem),
                            Container::DescriptionList => matches!(c, Container::DescriptionTerm | Container::DescriptionDetails),
                            Container::Table => matches!(c, Container::TableRow { .. } | Container::Caption),
                            Container::TableRow { head } => matches!(c, Container::TableCell { head: h, .. } if h == head),
                            Container::Section { .. } if open.last().unwrap().1 == 0 => {
                                matches!(c, Container::Heading { has_section: true, .. })
                            }
                            _ => !matches!(
                                c,
                                Container::ListItem
                                    | Container::TaskListItem { .. }
                                    | Container::DescriptionTerm
                                    | Container::DescriptionDetails
                                    | Container::TableRow { .. }
                                    | Container::TableCell { .. }
                                    | Container::Caption
                            ),
                        };
                        ensure!(ok, "{c:?} is not allowed as a child of {p:?}");
                        if let Container::Section { .. } = c {
                            ensure!(matches!(p, Container::Document | Container::Section { .. }), "section inside {p:?}");
                        }
                        if let Container::Heading { has_section, .. } = c {
                            let first = matches!(p, Container::Section { .. }) && open.last().unwrap().1 == 0;
                            ensure!(*has_section == first, "heading has_section={has_section} under {p:?}");
                        }
                    }
                    let _ = pl;
                    let nth = open.last().unwrap().1;
                    match c {
                        Container::DescriptionTerm => ensure!(nth % 2 == 0, "two description terms in a row"),
                        Container::DescriptionDetails => ensure!(nth % 2 == 1, "description details without a term"),
                        Container::Caption => ensure!(nth == 0, "caption that is not the first child of its table"),
                        _ => {}
                    }
                    open.last_mut().unwrap().1 += 1;
                }
                open.push((c.clone(), 0));
            }
            Event::End(c) => {
                let Some((o, nth)) = open.pop() else { return Err(format!("End({c:?}) with nothing open")) };
                match o {
                    Container::DescriptionList => ensure!(nth > 0 && nth % 2 == 0, "description list with {nth} children"),
                    Container::List { .. } | Container::Section { .. } => ensure!(nth > 0, "empty {o:?}"),
                    Container::TableRow { .. } => ensure!(nth > 0, "empty {o:?}"),
                    _ => {}
                }
                ensure!(o == *c, "End({c:?}) closes Start({o:?})");
                ensure!(!open.is_empty() || i + 1 == evs.len(), "document closed before the last event");
            }
            Event::Blankline | Event::ThematicBreak(_) => {
                let p = parent.unwrap();
                ensure!(p == Container::Document || p.is_block_container(), "block event {e:?} inside {p:?}");
                let only = matches!(p, Container::List { .. } | Container::DescriptionList | Container::Table | Container::TableRow { .. });
                ensure!(!only || *e == Event::Blankline && !matches!(p, Container::Table | Container::TableRow { .. }), "{e:?} directly inside {p:?}");
            }
            Event::Attributes(_) => {}
            _ => {
                let p = parent.unwrap();
                ensure!(!(p == Container::Document || p.is_block_container()), "inline event {e:?} directly in {p:?}");
                if verbatim_like(&p) {
                    ensure!(matches!(e, Event::Str(_)), "{e:?} inside verbatim {p:?}");
                }
            }
        }
    }
    ensure!(open.is_empty(), "{} containers never closed", open.len());
    Ok(())
}

// ------------------------------------------------------------------ P03 ranges

pub fn p03(src: &str) -> Res {
    let evs = events(src);
    let mut last: usize = 0;
    let mut last_start = 0;
    let mut caption = false;
    let mut stack: Vec<(Range<usize>, bool)> = vec![];
    for (i, (e, r)) in evs.iter().enumerate() {
        ensure!(r.start <= r.end, "event {i} {e:?}: range {r:?} starts after its end");
        ensure!(r.end <= src.len(), "event {i} {e:?}: range {r:?} out of bounds (len {})", src.len());
        ensure!(src.is_char_boundary(r.start) && src.is_char_boundary(r.end), "event {i} {e:?}: range {r:?} splits a character");
        if matches!(e, Event::Start(Container::Caption, _)) {
            caption = true;
        }
        if !caption {
            // the rows of a table are reported after its caption, although they precede it
            ensure!(r.start >= last, "event {i} {e:?}: range {r:?} overlaps or precedes the previous one, which ends at {last}");
        }
        if matches!(e, Event::End(Container::Caption)) {
            last = 0;
            last_start = 0;
        } else {
            last = r.end;
            last_start = r.start;
        }
        if matches!(e, Event::End(Container::Table)) {
            caption = false;
        }
        match e {
            Event::Start(c, _) => stack.push((r.clone(), *c == Container::Caption)),
            Event::End(_) => {
                if let Some((s, _)) = stack.pop() {
                    ensure!(s.start <= r.end, "event {i} {e:?}: ends at {r:?} before its start {s:?}");
                }
            }
            _ => {}
        }
    }
    let _ = last_start;
    Ok(())
}

// ------------------------------------------------------------------ P04 source fidelity

fn one_of(s: &str, o: &[&str]) -> bool {
    o.contains(&s)
}

/// The last line of a marker's range, which may begin with the attributes on the lines above.
fn last_line(t: &str) -> &str {
    let t = t.trim_end_matches(|c: char| c.is_ascii_whitespace());
    let l = t.rsplit('\n').next().unwrap();
    l.trim_start_matches(|c: char| c.is_ascii_whitespace() || c == '>')
}

fn closes_attr(t: &str) -> bool {
    t.is_empty() || t.starts_with('{') && t.ends_with('}')
}

/// After its delimiter, the end of a container has a brace at most, and attributes.
fn closes(t: Option<&str>) -> bool {
    t.is_some_and(|t| closes_attr(t.strip_prefix('}').unwrap_or(t)))
}

pub fn p04(src: &str) -> Res {
    let evs = events(src);
    for (i, (e, r)) in evs.iter().enumerate() {
        let t = &src[r.clone()];
        let ok = match e {
            Event::Str(s) => !s.is_empty() && s == t,
            Event::FootnoteReference(l) => t == format!("[^{l}]"),
            Event::Symbol(s) => t == format!(":{s}:"),
            Event::LeftSingleQuote | Event::RightSingleQuote => one_of(t, &["'", "{'", "'}"]),
            Event::LeftDoubleQuote | Event::RightDoubleQuote => one_of(t, &["\"", "{\"", "\"}"]),
            Event::Ellipsis => t == "...",
            Event::EnDash => t == "--",
            Event::EmDash => t == "---",
            Event::NonBreakingSpace => t == " " && r.start > 0 && src.as_bytes()[r.start - 1] == b'\\',
            Event::Softbreak => t == "\n",
            Event::Hardbreak => {
                t.ends_with('\n') && t[..t.len() - 1].chars().all(|c| c == ' ' || c == '\t') && r.start > 0 && src.as_bytes()[r.start - 1] == b'\\'
            }
            Event::Escape => {
                t == "\\" && src[r.end..].starts_with(|c: char| c.is_ascii_punctuation() || c.is_ascii_whitespace())
            }
            Event::Start(Container::Strong, _) => one_of(t, &["*", "{*"]),
            Event::Start(Container::Emphasis, _) => one_of(t, &["_", "{_"]),
            Event::Start(Container::Superscript, _) => one_of(t, &["^", "{^"]),
            Event::Start(Container::Subscript, _) => one_of(t, &["~", "{~"]),
            Event::Start(Container::Mark, _) => t == "{=",
            Event::Start(Container::Insert, _) => t == "{+",
            Event::Start(Container::Delete, _) => t == "{-",
            Event::Start(Container::Link(_, LinkType::AutoLink | LinkType::Email), _) => t == "<",
            // (an opener which could also have been a footnote reference covers the `^`)
            Event::Start(Container::Link(..), _) => one_of(t, &["[", "[^"]),
            Event::Start(Container::Image(..), _) => t == "![",
            Event::Start(Container::Span, _) => one_of(t, &["[", "[^", ""]),
            Event::Start(Container::Verbatim, _) => !t.is_empty() && t.bytes().all(|c| c == b'`'),
            Event::Start(Container::RawInline { .. }, _) => {
                let t = t.strip_prefix("$$").or(t.strip_prefix('$')).unwrap_or(t);
                !t.is_empty() && t.bytes().all(|c| c == b'`')
            }
            Event::Start(Container::Math { display }, _) => {
                let d = if *display { "$$" } else { "$" };
                t.strip_prefix(d).is_some_and(|t| !t.is_empty() && t.bytes().all(|c| c == b'`'))
            }
            Event::End(Container::Strong) => closes(t.strip_prefix('*')),
            Event::End(Container::Emphasis) => closes(t.strip_prefix('_')),
            Event::End(Container::Superscript) => closes(t.strip_prefix('^')),
            Event::End(Container::Subscript) => closes(t.strip_prefix('~')),
            Event::End(Container::Mark) => closes(t.strip_prefix("=}")),
            Event::End(Container::Insert) => closes(t.strip_prefix("+}")),
            Event::End(Container::Delete) => closes(t.strip_prefix("-}")),
            Event::End(Container::Link(_, LinkType::AutoLink | LinkType::Email)) => t == ">",
            Event::End(Container::Link(..) | Container::Image(..)) => {
                t.starts_with("](") && t.ends_with([')', '}']) || t.starts_with("][") && t.ends_with([']', '}'])
            }
            Event::End(Container::Span) => t == "]" || t.starts_with(['{', ']']) && t.ends_with('}'),
            // (not closed, the end of the text ends it)
            Event::End(Container::Verbatim | Container::Math { .. }) => closes_attr(t.trim_start_matches('`')),
            Event::End(Container::RawInline { format }) => {
                let u = t.trim_start_matches('`');
                t.len() > u.len() && u.starts_with("{=") && u[2..].strip_prefix(&**format).is_some_and(|x| x == "}")
            }
            Event::Start(Container::Heading { level, .. }, _) => {
                let l = last_line(t);
                l.len() == *level as usize && l.bytes().all(|c| c == b'#')
            }
            Event::Start(Container::Blockquote, _) => t.ends_with('>'),
            Event::Start(Container::TaskListItem { checked }, _) => {
                t.len() >= 5 && {
                    let m = &t.as_bytes()[t.len() - 5..];
                    matches!(m[0], b'-' | b'*' | b'+') && m[1] == b' ' && m[2] == b'[' && m[4] == b']' && (matches!(m[3], b'x' | b'X') == *checked) && matches!(m[3], b'x' | b'X' | b' ')
                }
            }
            Event::ThematicBreak(_) => t.trim_end().ends_with(['-', '*']),
            Event::Blankline => t.is_empty() || t == "\n",
            Event::Start(Container::Footnote { label }, _) => t.trim_end().ends_with(&format!("[^{label}]:")),
            Event::Start(Container::LinkDefinition { label }, _) => t.trim_end().ends_with(&format!("[{label}]:")),
            Event::Start(Container::CodeBlock { language }, _) => {
                let l = last_line(t);
                let f = l.trim_start_matches(l.chars().next().filter(|c| matches!(c, '`' | '~')).unwrap_or('`'));
                l.len() - f.len() >= 3 && f.trim_start_matches(|c: char| c.is_ascii_whitespace()) == &**language
            }
            Event::Start(Container::RawBlock { format }, _) => {
                let l = last_line(t);
                let f = l.trim_start_matches(l.chars().next().filter(|c| matches!(c, '`' | '~')).unwrap_or('`'));
                l.len() - f.len() >= 3 && f.trim_start_matches(|c: char| c.is_ascii_whitespace()).strip_prefix('=') == Some(&**format)
            }
            Event::Start(Container::Div { class }, _) => {
                let l = last_line(t);
                let f = l.trim_start_matches(':');
                l.len() - f.len() >= 3 && f.trim_start_matches(|c: char| c.is_ascii_whitespace()) == &**class
            }
            _ => true,
        };
        ensure!(ok, "event {i} {e:?}: its range {r:?} is {t:?}");
    }
    Ok(())
}

// ------------------------------------------------------------------ P05 nothing lost

pub fn p05(src: &str) -> Res {
    let evs = events(src);
    let b = src.as_bytes();
    let mut cov = vec![false; b.len()];
    for (_, r) in &evs {
        for c in &mut cov[r.clone()] {
            *c = true;
        }
    }
    let mut i = 0;
    while i < b.len() {
        if cov[i] {
            i += 1;
            continue;
        }
        let s = i;
        while i < b.len() && !cov[i] {
            i += 1;
        }
        let gap = &src[s..i];
        // alphanumeric or non-ASCII source text outside every range has been dropped
        let bad = gap.chars().find(|c| c.is_alphanumeric() || !c.is_ascii());
        if let Some(c) = bad {
            return Err(format!("{c:?} in {gap:?} (bytes {s}..{i}) is covered by no event"));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ P06 headings and sections

fn attr_id(a: &Attributes) -> Option<String> {
    a.get_value("id").map(|v| v.to_string())
}

pub fn p06(src: &str) -> Res {
    let evs = events(src);
    let mut sections: Vec<(String, u16)> = vec![];
    let mut auto: Vec<String> = vec![];
    let mut last_section: Option<String> = None;
    let mut sec_attr: Option<String> = None;
    let mut i = 0;
    while i < evs.len() {
        match &evs[i].0 {
            Event::Start(Container::Section { id }, a) => {
                last_section = Some(id.to_string());
                sec_attr = attr_id(a);
                sections.push((id.to_string(), 0));
            }
            Event::End(Container::Section { id }) => {
                let Some((o, _)) = sections.pop() else { return Err("section end".into()) };
                ensure!(o == **id, "section opened with id {o:?} closed with {id:?}");
            }
            Event::Start(Container::Heading { level, has_section, id }, a) => {
                let mut explicit = attr_id(a);
                if *has_section {
                    ensure!(last_section.as_deref() == Some(&**id), "heading id {id:?} differs from its section's {last_section:?}");
                    if explicit.is_none() {
                        explicit = sec_attr.take();
                    }
                    let n = sections.len();
                    if n == 0 {
                        return Err("has_section without section".into());
                    }
                    sections[n - 1].1 = *level;
                    if n > 1 {
                        ensure!(sections[n - 2].1 < *level, "level {level} section inside a level {} section", sections[n - 2].1);
                    }
                }
                ensure!(*level >= 1, "heading level 0");
                // text of the heading
                let mut text = String::new();
                let mut j = i + 1;
                loop {
                    match &evs[j].0 {
                        Event::End(Container::Heading { level: l, has_section: h, id: x }) => {
                            ensure!(l == level && h == has_section && x == id, "heading end differs from its start");
                            break;
                        }
                        Event::Str(s) => text.push_str(s),
                        Event::Softbreak => text.push('\n'),
                        _ => {}
                    }
                    j += 1;
                }
                match explicit {
                    Some(x) => ensure!(**id == *x, "heading with explicit id {x:?} got id {id:?}"),
                    None => {
                        ensure!(!id.is_empty(), "empty automatic id");
                        ensure!(!id.contains(|c: char| c.is_ascii_whitespace()), "automatic id {id:?} contains whitespace");
                        ensure!(!auto.contains(&id.to_string()), "two headings share the automatic id {id:?}");
                        // characters of the id come from the text
                        let kept: String = text.chars().filter(|c| !c.is_ascii_whitespace() && (!c.is_ascii_punctuation() || matches!(c, '-' | '_'))).collect();
                        let base = kept.replace('-', "");
                        let idc = id.replace('-', "");
                        let suffix = idc.strip_prefix(&base);
                        ensure!(
                            suffix.is_some_and(|s| s.is_empty() || s.bytes().all(|c| c.is_ascii_digit())) || base.is_empty() && idc.starts_with('s'),
                            "automatic id {id:?} is not derived from the heading text {text:?}"
                        );
                        auto.push(id.to_string());
                    }
                }
                last_section = None;
                sec_attr = None;
            }
            _ => {}
        }
        i += 1;
    }
    // a section ends only because a heading of the same or a lower level starts, or at the end
    let mut stack: Vec<u16> = vec![];
    for (i, (e, _)) in evs.iter().enumerate() {
        match e {
            Event::Start(Container::Heading { level, has_section: true, .. }, _) => stack.push(*level),
            Event::End(Container::Section { .. }) => {
                let Some(l) = stack.pop() else { return Err("sections".into()) };
                let next = evs[i + 1..].iter().find_map(|(e, _)| match e {
                    Event::Start(Container::Heading { level, has_section: true, .. }, _) => Some(Some(*level)),
                    Event::End(Container::Document) => Some(None),
                    Event::End(_) | Event::Start(Container::Section { .. }, _) | Event::Attributes(_) => None,
                    Event::Blankline => None,
                    _ => Some(Some(u16::MAX)),
                });
                if let Some(Some(n)) = next {
                    ensure!(n <= l, "level {l} section closed although what follows is not a heading of level <= {l}");
                }
            }
            _ => {}
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ P07 link resolution

fn no_space(s: &str) -> String {
    s.chars().filter(|c| !c.is_ascii_whitespace()).collect()
}

/// Whether lines have prefixes other than indentation here.
fn in_quote(evs: &[(Event, Range<usize>)], open: &[usize]) -> bool {
    open.iter().any(|k| matches!(&evs[*k].0, Event::Start(Container::Blockquote | Container::Heading { .. } | Container::Caption, _)))
}

fn flat_text(evs: &[(Event, Range<usize>)]) -> String {
    let mut s = String::new();
    for (e, _) in evs {
        match e {
            Event::Str(t) => s.push_str(t),
            Event::Softbreak => s.push(' '),
            _ => {}
        }
    }
    s
}

pub fn p07(src: &str) -> Res {
    let evs = events(src);
    let mut defs: Vec<(String, String, Attributes)> = vec![];
    let mut heads: Vec<(String, String)> = vec![];
    for (i, (e, _)) in evs.iter().enumerate() {
        match e {
            Event::Start(Container::LinkDefinition { label }, a) => {
                let mut url = String::new();
                for (f, _) in &evs[i + 1..] {
                    match f {
                        Event::Str(s) => url.push_str(s.trim_matches(|c: char| c.is_ascii_whitespace())),
                        _ => break,
                    }
                }
                defs.retain(|(l, _, _)| *l != **label);
                defs.push((label.to_string(), url, a.clone()));
            }
            Event::Start(Container::Heading { id, .. }, _) => {
                let end = i + 1 + evs[i + 1..].iter().position(|(e, _)| matches!(e, Event::End(Container::Heading { .. }))).ok_or("heading")?;
                heads.push((flat_text(&evs[i + 1..end]), id.to_string()));
            }
            _ => {}
        }
    }
    let mut stack: Vec<usize> = vec![];
    for (i, (e, r)) in evs.iter().enumerate() {
        match e {
            Event::Start(..) => stack.push(i),
            Event::End(c) => {
                let s = stack.pop().ok_or("stack")?;
                let (url, ty) = match c {
                    Container::Link(u, LinkType::Span(t)) => (u, t),
                    Container::Image(u, t) => (u, t),
                    _ => continue,
                };
                let Event::Start(_, attrs) = &evs[s].0 else { unreachable!() };
                let t = &src[r.clone()];
                let label: Option<String> = if let Some(rest) = t.strip_prefix("][") {
                    let l = rest.split(']').next().unwrap();
                    if l.is_empty() {
                        // the text of the link is the label; only decided for plain text
                        let plain = evs[s + 1..i].iter().all(|(e, _)| matches!(e, Event::Str(_)));
                        plain.then(|| evs[s + 1..i].iter().map(|(e, _)| if let Event::Str(t) = e { t.to_string() } else { String::new() }).collect())
                    } else if l.contains(['[', '`', '\\', '{', '<']) {
                        None
                    } else if l.contains('\n') {
                        // lines joined by a space
                        let ls: Vec<&str> = l.split('\n').enumerate().map(|(k, x)| if k == 0 { x } else { x.trim_start_matches(|c: char| c.is_ascii_whitespace()) }).collect();
                        let clean = !in_quote(&evs, &stack) && ls.iter().all(|x| !x.is_empty() && !x.ends_with(|c: char| c.is_ascii_whitespace()));
                        clean.then(|| ls.join(" "))
                    } else {
                        Some(l.to_string())
                    }
                } else {
                    None
                };
                match ty {
                    SpanLinkType::Inline => {
                        ensure!(t.starts_with("]("), "inline link closed by {t:?}");
                        let l = &t[2..];
                        let end = 2 + url.len();
                        if !l.contains('\n') {
                            ensure!(t.get(2..end) == Some(&**url) && t[end..].starts_with(')'), "inline link written {t:?} has destination {url:?}");
                        } else if !in_quote(&evs, &stack) {
                            // lines joined; the indentation of the lines aside
                            let rest = no_space(l).strip_prefix(&no_space(url)).map(str::to_string);
                            ensure!(rest.is_some_and(|x| x.starts_with(')')), "inline link written {t:?} has destination {url:?}");
                            ensure!(!url.contains('\n'), "destination {url:?} contains a newline");
                        }
                    }
                    SpanLinkType::Reference => {
                        ensure!(t.starts_with("]["), "reference link closed by {t:?}");
                        let known = defs.iter().any(|(_, u, _)| **url == *u) || heads.iter().any(|(_, id)| **url == format!("#{id}"));
                        ensure!(known, "destination {url:?} of a resolved reference is no definition's and no heading's");
                        if let Some(l) = &label {
                            if let Some((_, u, da)) = defs.iter().find(|(d, _, _)| d == l) {
                                ensure!(**url == *u, "reference to {l:?} resolved to {url:?} instead of {u:?}");
                                let pre: Vec<_> = attrs.iter().take(da.len()).cloned().collect();
                                let want: Vec<_> = da.iter().cloned().collect();
                                ensure!(pre == want, "reference to {l:?} lacks the definition's attributes {da:?}: {attrs:?}");
                            } else if !heads.iter().any(|(h, id)| h == l && **url == format!("#{id}")) {
                                return Err(format!("reference to {l:?} resolved to {url:?}, neither a definition nor a heading of that text"));
                            }
                        }
                    }
                    SpanLinkType::Unresolved => {
                        ensure!(t.starts_with("]["), "unresolved link closed by {t:?}");
                        ensure!(!defs.iter().any(|(l, _, _)| *l == **url), "label {url:?} is defined but its reference is unresolved");
                        ensure!(!heads.iter().any(|(h, _)| *h == **url), "heading {url:?} exists but its reference is unresolved");
                        if let Some(l) = &label {
                            ensure!(*l == **url, "unresolved reference to {l:?} carries {url:?}");
                        }
                    }
                }
            }
            _ => {}
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ P08 lists

pub fn alpha_value(s: &str) -> Option<u64> {
    let c = s.chars().next()?;
    if s.len() != 1 || !c.is_ascii_alphabetic() {
        return None;
    }
    Some((c.to_ascii_lowercase() as u8 - b'a' + 1) as u64)
}

pub fn roman_value(s: &str) -> Option<i64> {
    let mut vals = vec![];
    for c in s.chars() {
        vals.push(match c.to_ascii_lowercase() {
            'i' => 1i64,
            'v' => 5,
            'x' => 10,
            'l' => 50,
            'c' => 100,
            'd' => 500,
            'm' => 1000,
            _ => return None,
        });
    }
    if s.is_empty() {
        return None;
    }
    let mut sum = 0;
    for i in 0..vals.len() {
        if i + 1 < vals.len() && vals[i] < vals[i + 1] {
            sum -= vals[i];
        } else {
            sum += vals[i];
        }
    }
    Some(sum)
}

fn number_value(n: OrderedListNumbering, s: &str) -> Option<u64> {
    use OrderedListNumbering::*;
    match n {
        Decimal => s.bytes().all(|c| c.is_ascii_digit()).then(|| s.parse().ok()).flatten(),
        AlphaLower => alpha_value(s).filter(|_| s.bytes().all(|c| c.is_ascii_lowercase())),
        AlphaUpper => alpha_value(s).filter(|_| s.bytes().all(|c| c.is_ascii_uppercase())),
        RomanLower => roman_value(s).filter(|_| s.bytes().all(|c| c.is_ascii_lowercase())).map(|x| x as u64),
        RomanUpper => roman_value(s).filter(|_| s.bytes().all(|c| c.is_ascii_uppercase())).map(|x| x as u64),
    }
}

pub fn p08(src: &str) -> Res {
    let evs = events(src);
    let mut open: Vec<(Container, usize, bool)> = vec![]; // container, items seen, blank line anywhere inside
    for (i, (e, r)) in evs.iter().enumerate() {
        match e {
            Event::Start(c, _) => {
                if let (Some((Container::List { kind, .. }, items, _)), Container::ListItem | Container::TaskListItem { .. }) = (open.last_mut(), c) {
                    let first = *items == 0;
                    *items += 1;
                    let m = &src[r.clone()];
                    match kind {
                        ListKind::Unordered(b) => ensure!(m.len() == 1 && m.as_bytes()[0] == u8::from(*b), "event {i}: item marked {m:?} in a list of {b:?} bullets"),
                        ListKind::Task(b) => {
                            let mb = m.as_bytes();
                            ensure!(mb.len() == 5 && mb[0] == u8::from(*b), "event {i}: item marked {m:?} in a task list of {b:?} bullets");
                            let Container::TaskListItem { checked } = c else { return Err("task".into()) };
                            ensure!(matches!(mb[3], b'x' | b'X') == *checked, "event {i}: {m:?} reported checked={checked}");
                        }
                        ListKind::Ordered { numbering, style, start } => {
                            let n = match style {
                                OrderedListStyle::Period => m.strip_suffix('.'),
                                OrderedListStyle::Paren => m.strip_suffix(')').filter(|m| !m.starts_with('(')),
                                OrderedListStyle::ParenParen => m.strip_suffix(')').and_then(|m| m.strip_prefix('(')),
                            };
                            let Some(n) = n else { return Err(format!("event {i}: item marked {m:?} in a list of style {style:?}")) };
                            let v = number_value(*numbering, n);
                            let Some(v) = v else { return Err(format!("event {i}: item numbered {n:?} in a list of {numbering:?} numbers")) };
                            if first {
                                ensure!(v == *start, "event {i}: list whose first number is {n:?} starts at {start}");
                            }
                        }
                    }
                }
                open.push((c.clone(), 0, false));
            }
            Event::End(c) => {
                let (o, items, blank) = open.pop().ok_or("stack")?;
                if let Container::List { tight, .. } = o {
                    ensure!(items > 0, "list without items");
                    ensure!(tight || blank, "event {i}: list {c:?} without any blank line is loose");
                }
                if let Container::DescriptionList = o {}
            }
            Event::Blankline => {
                for o in &mut open {
                    o.2 = true;
                }
            }
            _ => {}
        }
    }
    for c in 0..=255u8 {
        let want = match c {
            b'-' => Some(ListBulletType::Dash),
            b'*' => Some(ListBulletType::Star),
            b'+' => Some(ListBulletType::Plus),
            _ => None,
        };
        ensure!(ListBulletType::try_from(c).ok() == want, "ListBulletType::try_from({c:?})");
        ensure!(ListBulletType::try_from(c as char).ok() == want, "ListBulletType::try_from({:?})", c as char);
        if let Some(w) = want {
            ensure!(u8::from(w) == c && char::from(w) == c as char, "ListBulletType -> u8/char of {w:?}");
        }
    }
    for c in src.chars() {
        let want = matches!(c, '-' | '*' | '+');
        ensure!(ListBulletType::try_from(c).is_ok() == want, "ListBulletType::try_from({c:?})");
    }
    Ok(())
}

// ------------------------------------------------------------------ P09 smart punctuation

pub fn p09(src: &str) -> Res {
    let evs = events(src);
    let mut stack: Vec<Container> = vec![];
    let mut i = 0;
    while i < evs.len() {
        match &evs[i].0 {
            Event::Start(c, _) => stack.push(c.clone()),
            Event::End(_) => {
                stack.pop();
            }
            Event::EmDash | Event::EnDash => {
                let s = evs[i].1.start;
                let (mut m, mut n, mut j) = (0usize, 0usize, i);
                let mut end = s;
                let mut order = true;
                while j < evs.len() && matches!(evs[j].0, Event::EmDash | Event::EnDash) && evs[j].1.start == end {
                    if matches!(evs[j].0, Event::EmDash) {
                        order &= n == 0;
                        m += 1;
                    } else {
                        n += 1;
                    }
                    end = evs[j].1.end;
                    j += 1;
                }
                let l = end - s;
                ensure!(src[s..end].bytes().all(|c| c == b'-'), "dash covers {:?}", &src[s..end]);
                let (wm, wn) = if l % 3 == 0 {
                    (l / 3, 0)
                } else if l % 2 == 0 {
                    (0, l / 2)
                } else if l % 3 == 2 {
                    ((l - 2) / 3, 1)
                } else {
                    ((l - 4) / 3, 2)
                };
                ensure!((m, n) == (wm, wn) && order, "{l} hyphens became {m} em dashes and {n} en dashes (em dashes first: {order})");
                // the run is maximal
                let next = src.as_bytes().get(end);
                if next == Some(&b'-') {
                    ensure!(src.as_bytes().get(end + 1) == Some(&b'}'), "hyphens left over after {:?}", &src[s..end]);
                }
                i = j;
                continue;
            }
            Event::Ellipsis => {
                let s = evs[i].1.start;
                let mut j = i;
                let mut end = s;
                while j < evs.len() && matches!(evs[j].0, Event::Ellipsis) && evs[j].1.start == end {
                    end = evs[j].1.end;
                    j += 1;
                }
                ensure!(!src[end..].starts_with("..."), "three periods left over after an ellipsis");
                i = j;
                continue;
            }
            Event::Str(s) => {
                let plain = stack.last().is_some_and(|c| !verbatim_like(c));
                if plain {
                    let r = &evs[i].1;
                    let esc = evs[i.saturating_sub(4)..i].iter().any(|(e, er)| matches!(e, Event::Escape) && er.end == r.start);
                    let b = s.as_bytes();
                    let mut k = 0;
                    while k < b.len() {
                        if b[k] == b'-' || b[k] == b'.' {
                            let st = k;
                            while k < b.len() && b[k] == b[st] {
                                k += 1;
                            }
                            let skip = usize::from(st == 0 && esc);
                            let mut len = k - st - skip;
                            if b[st] == b'-' {
                                // `{-` and `-}` are delimiters, not part of a run
                                let before = if r.start + st > 0 { src.as_bytes()[r.start + st - 1] } else { 0 };
                                if before == b'{' && len > 0 && skip == 0 {
                                    len -= 1;
                                }
                                if src.as_bytes().get(r.start + k) == Some(&b'}') && len > 0 {
                                    len -= 1;
                                }
                                ensure!(len < 2, "{} hyphens in plain text {s:?} are not dashes", k - st);
                            } else {
                                ensure!(len < 3, "{} periods in plain text {s:?} are no ellipsis", k - st);
                            }
                        } else {
                            k += 1;
                        }
                    }
                }
            }
            _ => {}
        }
        i += 1;
    }
    Ok(())
}

// ------------------------------------------------------------------ P10 verbatim content

fn line_start(src: &str, p: usize) -> usize {
    src.as_bytes()[..p].iter().rposition(|c| *c == b'\n').map_or(0, |i| i + 1)
}

pub fn p10(src: &str) -> Res {
    let evs = events(src);
    let mut depth = 0usize;
    let mut prefixed = 0usize; // containers that strip a line prefix
    for (i, (e, r)) in evs.iter().enumerate() {
        match e {
            Event::Start(c, _) => {
                depth += 1;
                if !matches!(c, Container::Document | Container::Section { .. }) {
                    prefixed += 1;
                }
                let end = evs[i + 1..].iter().position(|(e, _)| matches!(e, Event::End(d) if d == c)).map(|p| p + i + 1);
                let Some(end) = end else { return Err(format!("event {i} {e:?} is never closed")) };
                let er = evs[end].1.clone();
                match c {
                    Container::CodeBlock { .. } | Container::RawBlock { .. } => {
                        let raw = matches!(c, Container::RawBlock { .. });
                        let open_line = line_start(src, r.end.saturating_sub(1).max(r.start));
                        let fence_line = &src[open_line..r.end];
                        let indent = fence_line.len() - fence_line.trim_start_matches(|c: char| c.is_ascii_whitespace()).len();
                        let body = &src[r.end..er.start];
                        let got: String = evs[i + 1..end].iter().map(|(e, _)| if let Event::Str(s) = e { s.to_string() } else { String::new() }).collect();
                        if prefixed == 1 {
                            // directly at the top level: the exact content is known
                            let body = if er.start < er.end { &src[r.end..line_start(src, er.start)] } else { body };
                            let mut want = String::new();
                            for l in body.split_inclusive('\n') {
                                let ws = l.bytes().take_while(|c| *c != b'\n' && c.is_ascii_whitespace()).count();
                                want.push_str(&l[ws.min(indent)..]);
                            }
                            if raw {
                                // whitespace at the end of the last line is not significant
                                let w = want.trim_end_matches(|c: char| c.is_ascii_whitespace());
                                let g = got.trim_end_matches(|c: char| c.is_ascii_whitespace());
                                ensure!(w == g, "raw block {body:?} has content {got:?} instead of {want:?}");
                            } else {
                                ensure!(want == got, "code block {body:?} has content {got:?} instead of {want:?}");
                            }
                        }
                        // what the ranges skip between lines is indentation and quote markers only
                        let mut pos = r.end;
                        for (k, (_, sr)) in evs[i + 1..end].iter().enumerate() {
                            let gap = &src[pos.min(sr.start)..sr.start];
                            ensure!(gap.bytes().all(|c| c.is_ascii_whitespace() || c == b'>'), "code block drops {gap:?} before piece {k}");
                            pos = sr.end;
                        }
                    }
                    Container::Verbatim | Container::Math { .. } | Container::RawInline { .. } => {
                        let open = &src[r.clone()];
                        let n = open.bytes().filter(|c| *c == b'`').count();
                        let close = &src[er.clone()];
                        let cn = close.bytes().take_while(|c| *c == b'`').count();
                        let body = &src[r.end..er.start.max(r.end)];
                        if er.is_empty() || cn == 0 {
                            // closed by the end of the block
                        } else {
                            ensure!(cn == n, "{open:?} is closed by {close:?}");
                        }
                        ensure!(!runs(body).contains(&n), "{body:?} between {open:?} and {close:?} contains a closing delimiter");
                        let got: String = evs[i + 1..end].iter().map(|(e, _)| if let Event::Str(s) = e { s.to_string() } else { String::new() }).collect();
                        let single = !body.contains('\n');
                        if single {
                            let t = body.trim_matches(|c: char| c.is_ascii_whitespace());
                            let ok = got == body
                                || (t.starts_with('`') || t.ends_with('`')) && got.trim_matches(|c: char| c.is_ascii_whitespace()) == t
                                || (cn == 0 && got.trim_end() == body.trim_end());
                            ensure!(ok, "verbatim {open:?}{body:?}{close:?} has content {got:?}");
                            if got.len() < body.len() && cn > 0 {
                                // only one run of whitespace next to a backtick may be dropped at either end
                                let lead = body.len() - body.trim_start().len();
                                let gl = got.len() - got.trim_start().len();
                                ensure!(gl == lead || t.starts_with('`'), "leading whitespace dropped from {body:?}");
                            }
                        }
                    }
                    _ => {}
                }
            }
            Event::End(c) => {
                depth -= 1;
                if !matches!(c, Container::Document | Container::Section { .. }) {
                    prefixed -= 1;
                }
            }
            _ => {}
        }
    }
    let _ = depth;
    Ok(())
}

fn runs(s: &str) -> Vec<usize> {
    let mut v = vec![];
    let mut n = 0;
    for c in s.bytes() {
        if c == b'`' {
            n += 1;
        } else {
            if n > 0 {
                v.push(n);
            }
            n = 0;
        }
    }
    if n > 0 {
        v.push(n);
    }
    v
}

// ------------------------------------------------------------------ P11 tables

pub fn split_row(l: &str) -> Option<Vec<String>> {
    // cells of a row without verbatim, escapes or characters that interact with lexing of pipes
    let t = l.trim_matches(|c: char| c.is_ascii_whitespace());
    let b = t.strip_prefix('|')?;
    let b = b.strip_suffix('|')?;
    Some(b.split('|').map(|s| s.trim_matches(|c: char| c.is_ascii_whitespace()).to_string()).collect())
}

fn sep_cell(c: &str) -> Option<Alignment> {
    let l = c.starts_with(':');
    let r = c.ends_with(':');
    let core = c.strip_prefix(':').unwrap_or(c);
    let core = core.strip_suffix(':').unwrap_or(core);
    if core.is_empty() || !core.bytes().all(|c| c == b'-') {
        return None;
    }
    Some(match (l, r) {
        (true, true) => Alignment::Center,
        (true, false) => Alignment::Left,
        (false, true) => Alignment::Right,
        _ => Alignment::Unspecified,
    })
}

pub fn p11(src: &str) -> Res {
    let evs = events(src);
    let mut open: Vec<Container> = vec![];
    let mut i = 0;
    while i < evs.len() {
        match &evs[i].0 {
            Event::Start(Container::Table, _) => {
                let nested = open.iter().any(|c| !matches!(c, Container::Document | Container::Section { .. }));
                let end = i + evs[i..].iter().position(|(e, _)| matches!(e, Event::End(Container::Table))).ok_or("table end")?;
                // rows from the events
                let mut rows: Vec<(bool, Vec<(Alignment, String)>)> = vec![];
                let mut cell: Option<usize> = None;
                let mut k = i + 1;
                let mut caption = false;
                while k < end {
                    match &evs[k].0 {
                        Event::Start(Container::Caption, _) => caption = true,
                        Event::Start(Container::TableRow { head }, _) => rows.push((*head, vec![])),
                        Event::Start(Container::TableCell { alignment, head }, _) => {
                            let row = rows.last_mut().ok_or("cell outside row")?;
                            ensure!(row.0 == *head, "cell head={head} in row head={}", row.0);
                            row.1.push((*alignment, String::new()));
                            cell = Some(evs[k].1.end);
                        }
                        Event::End(Container::TableCell { alignment, .. }) => {
                            let row = rows.last_mut().ok_or("cell outside row")?;
                            let c = row.1.last_mut().ok_or("cell")?;
                            ensure!(c.0 == *alignment, "cell starts {:?} and ends {alignment:?}", c.0);
                            c.1 = src[cell.unwrap()..evs[k].1.start].trim_matches(|c: char| c.is_ascii_whitespace()).to_string();
                            ensure!(&src[evs[k].1.clone()] == "|", "cell closed by {:?}", &src[evs[k].1.clone()]);
                        }
                        _ => {}
                    }
                    k += 1;
                }
                // per column alignment is constant between separators; below from source
                let tsrc = &src[evs[i].1.end..evs[end].1.end];
                let simple = !nested && !caption && !tsrc.contains(['`', '\\', '{', '[', '<', ':', '$', '"']) || !nested && !caption && {
                    // ':' only in separator rows
                    !tsrc.contains(['`', '\\', '{', '[', '<', '$', '"'])
                        && tsrc.lines().all(|l| {
                            !l.contains(':') || split_row(l).is_some_and(|r| r.iter().all(|c| sep_cell(c).is_some()))
                        })
                };
                if simple {
                    let mut want: Vec<(bool, Vec<(Alignment, String)>)> = vec![];
                    let mut cur: Vec<Alignment> = vec![];
                    let mut prev_is_row = false;
                    let mut ok = true;
                    for l in tsrc.lines() {
                        if l.trim_matches(|c: char| c.is_ascii_whitespace()).is_empty() {
                            break;
                        }
                        let Some(cells) = split_row(l) else {
                            ok = false;
                            break;
                        };
                        let seps: Vec<Option<Alignment>> = cells.iter().map(|c| sep_cell(c)).collect();
                        if seps.iter().all(|s| s.is_some()) {
                            cur = seps.into_iter().map(|s| s.unwrap()).collect();
                            if let Some(last) = want.last_mut() {
                                // the row above (also across several separators) becomes the head
                                let _ = prev_is_row;
                                last.0 = true;
                                for (ci, c) in last.1.iter_mut().enumerate() {
                                    c.0 = cur.get(ci).copied().unwrap_or(Alignment::Unspecified);
                                }
                            }
                            prev_is_row = false;
                        } else {
                            want.push((false, cells.iter().enumerate().map(|(ci, c)| (cur.get(ci).copied().unwrap_or(Alignment::Unspecified), c.clone())).collect()));
                            prev_is_row = true;
                        }
                    }
                    if ok {
                        ensure!(want == rows, "table {tsrc:?}: got {rows:?}, expected {want:?}");
                    }
                }
                open.push(Container::Table);
            }
            Event::Start(c, _) => open.push(c.clone()),
            Event::End(_) => {
                open.pop();
            }
            _ => {}
        }
        i += 1;
    }
    Ok(())
}

// ------------------------------------------------------------------ P12 attributes are where they were written

/// All elements of a source piece consisting of attribute blocks on one line.
fn reparse(t: &str) -> Option<Vec<(AttributeKind<'_>, AttributeValue<'_>)>> {
    Attributes::try_from(t).ok().map(Vec::from)
}

pub fn p12(src: &str) -> Res {
    let evs = events(src);
    let mut stack: Vec<(usize, Attributes)> = vec![];
    for (i, (e, r)) in evs.iter().enumerate() {
        let t = &src[r.clone()];
        match e {
            Event::Start(c, a) => {
                if c.is_block() && !a.is_empty() {
                    let nested = stack.len() > 1
                        && stack[1..].iter().any(|(k, _)| !matches!(&evs[*k].0, Event::Start(Container::Section { .. }, _)));
                    ensure!(t.starts_with('{'), "event {i} {e:?} has attributes but its range {t:?} does not start with them");
                    if !nested {
                        // the longest prefix made of attribute lines
                        let want = block_attr_prefix(t);
                        if let Some(w) = want {
                            let got: Vec<_> = a.iter().cloned().collect();
                            ensure!(got == w, "event {i}: source {t:?} but attributes {a:?}");
                        }
                    }
                }
                stack.push((i, a.clone()));
            }
            Event::End(c) => {
                let (k, a) = stack.pop().ok_or("stack")?;
                if matches!(c, Container::Span) && evs[k].1.is_empty() {
                    // attributes after a word
                    let start = evs[k].1.start;
                    let word = &src[start..r.start];
                    ensure!(!word.is_empty() && !word.bytes().any(|c| c.is_ascii_whitespace()), "event {i} {e:?}: attributes of {word:?}, which is no word");
                    if let Some((Event::Str(s), q)) = k.checked_sub(1).map(|k| &evs[k]) {
                        ensure!(q.end != start || s.ends_with(|c: char| c.is_ascii_whitespace()), "event {i} {e:?}: attributes of {word:?}, which is part of a word");
                    }
                }
                let spec = match c {
                    Container::Strong | Container::Emphasis | Container::Superscript | Container::Subscript | Container::Mark
                    | Container::Insert | Container::Delete | Container::Span => t.find('{').map(|p| &t[p..]),
                    Container::Verbatim | Container::Math { .. } => t.find('{').map(|p| &t[p..]),
                    Container::Link(_, LinkType::Span(SpanLinkType::Inline)) | Container::Image(_, SpanLinkType::Inline) => {
                        let url_len = match c {
                            Container::Link(u, _) | Container::Image(u, _) => u.len(),
                            _ => 0,
                        };
                        if t.contains('\n') {
                            continue;
                        }
                        t.get(2 + url_len + 1..).filter(|s| !s.is_empty())
                    }
                    _ => continue,
                };
                let got: Vec<_> = a.iter().cloned().collect();
                match spec {
                    None => ensure!(got.is_empty(), "event {i} {e:?} ({t:?}) got attributes {a:?} that are not written there"),
                    Some(s) if !s.contains('\n') || !s.contains(['"', '%']) && !stack.iter().any(|(k, _)| matches!(&evs[*k].0, Event::Start(Container::Blockquote | Container::Heading { .. }, _))) => {
                        if let Some(w) = reparse(s) {
                            ensure!(got == w, "event {i} {e:?}: attributes {a:?} differ from the written {s:?}");
                        } else {
                            ensure!(got.is_empty(), "event {i} {e:?}: attributes {a:?} from {s:?}");
                        }
                    }
                    Some(_) => {}
                }
            }
            Event::Attributes(a) => {
                ensure!(t.starts_with('{'), "event {i} {e:?} has range {t:?}");
                if !t.contains('\n') {
                    let Some(w) = reparse(t) else { return Err(format!("event {i} {e:?}: {t:?} are no attributes")) };
                    let got: Vec<_> = a.iter().cloned().collect();
                    ensure!(got == w, "event {i} {e:?}: written {t:?}");
                }
            }
            _ => {}
        }
    }
    Ok(())
}

fn block_attr_prefix(t: &str) -> Option<Vec<(AttributeKind<'_>, AttributeValue<'_>)>> {
    let mut out = vec![];
    let mut rest = t;
    loop {
        let rt = rest.trim_start_matches(|c: char| c.is_ascii_whitespace());
        if !rt.starts_with('{') {
            return Some(out);
        }
        let line_end = rt.find('\n').unwrap_or(rt.len());
        let l = rt[..line_end].trim_end_matches(|c: char| c.is_ascii_whitespace());
        let p = reparse(l)?;
        out.extend(p);
        rest = &rt[line_end..];
        if rest.is_empty() {
            return Some(out);
        }
    }
}

// ------------------------------------------------------------------ P13 nesting

/// `src` with every line inside a block quote.
pub fn quoted(src: &str) -> String {
    let mut q = String::new();
    for l in src.split_inclusive('\n') {
        q.push('>');
        if l != "\n" {
            q.push(' ');
        }
        q.push_str(l);
    }
    q
}

/// Events with adjacent text merged.
fn merged(src: &str) -> Vec<Event<'_>> {
    let mut v: Vec<Event<'_>> = Vec::new();
    for e in Parser::new(src) {
        let e: Event = e;
        if let (Some(Event::Str(p)), Event::Str(s)) = (v.last_mut(), &e) {
            *p = format!("{p}{s}").into();
        } else {
            v.push(match e {
                // which blank lines at the end of a list count depends on what follows it
                Event::Start(Container::List { kind, .. }, a) => Event::Start(Container::List { kind, tight: true }, a),
                Event::End(Container::List { kind, .. }) => Event::End(Container::List { kind, tight: true }),
                e => e,
            });
        }
    }
    v
}

/// The same with the markers indented.
pub fn quoted_indented(src: &str) -> String {
    let mut h: u32 = src.bytes().fold(0x811c_9dc5, |h, c| (h ^ u32::from(c)).wrapping_mul(0x0100_0193));
    let mut q = String::new();
    for l in src.split_inclusive('\n') {
        h ^= h << 13;
        h ^= h >> 17;
        h ^= h << 5;
        q.push_str(["", "", " ", "  ", "   ", "    ", "      ", "\t"][(h >> 20) as usize % 8]);
        q.push('>');
        if l != "\n" {
            q.push(' ');
        }
        q.push_str(l);
    }
    q
}

pub fn p13(src: &str) -> Res {
    // whitespace at the end of a line belongs to the quote marker if nothing precedes it
    let trailing = |l: &str| l.ends_with(|c: char| c.is_ascii_whitespace());
    if src.is_empty() || src.split('\n').any(trailing) {
        return Ok(());
    }
    let plain = merged(src);
    let heading = |e: &Event| matches!(e, Event::Start(Container::Heading { .. } | Container::Section { .. }, _));
    if plain.iter().any(heading) {
        return Ok(());
    }
    for q in [quoted(src), quoted_indented(src)] {
        let inner = merged(&q);
        ensure!(
            matches!(inner.get(1), Some(Event::Start(Container::Blockquote, a)) if a.is_empty()),
            "quoted text does not start a block quote"
        );
        let n = inner.len();
        ensure!(
            n >= 4 && matches!(inner[n - 2], Event::End(Container::Blockquote)),
            "quoted text does not end with the block quote"
        );
        let (a, b) = (&plain[1..plain.len() - 1], &inner[2..n - 2]);
        for i in 0..a.len().max(b.len()) {
            let (x, y) = (a.get(i), b.get(i));
            ensure!(x == y, "event {i} is {x:?}, but {y:?} within a block quote");
        }
    }
    Ok(())
}
