//! Deterministic, seeded generators of djot documents. Everything here only produces inputs; what
//! must hold of them is in `oracle.rs`.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
}

pub const INLINE: &[&str] = &[
    "a", "b", "c", " ", " ", "  ", "\n", "\n", "*", "_", "^", "~", "{*", "*}", "{_", "_}", "{^", "^}", "{~",
    "~}", "{=", "=}", "{+", "+}", "{-", "-}", "'", "\"", "{'", "'}", "{\"", "\"}", "`", "``", "```", "$`",
    "$$`", "$", "{=html}", "{=x}", "[", "]", "(", ")", "![", "](", "][", "][]", "](u)", "][a]", "[a]", "[^a]",
    "[^b]", "<", ">", "<http://a>", "<a@b>", ":", ":a:", ":+1:", "-", "--", "---", "----", ".", "..", "...",
    "....", "\\", "\\\\", "\\*", "\\ ", "\\\n", "\\ \n", "\\`", "\\-", "\\.", "\\$", "{", "}", "{}", "{.a}", "{#i}",
    "{k=v}", "{k=\"v w\"}", "{%c%}", "{.a\n.b}", "{k=\"v", "w\"}", "!", "|", "=", "+", "&", "é", "→", "\u{a0}",
    "\t", "#", "{.a}{.b}", "word", "x y",
];

pub const BLOCK: &[&str] = &[
    "\n", "\n\n", "\n\n\n", "> ", ">", ">\n", "- ", "+ ", "* ", "-\n", ": ", "# ", "## ", "### ", "#\n", "1. ",
    "2) ", "(3) ", "a. ", "b. ", "i. ", "ii. ", "(iv) ", "A) ", "I) ", "x. ", "- [ ] ", "- [x] ", "- [X] ",
    "```", "```\n", "````\n", "~~~\n", "``` rust\n", "``` =html\n", ":::\n", "::: cls\n", "::::\n", "---\n",
    "* * *\n", "[a]: u\n", "[b]: v\n", "[a]:\n", "[^a]: ", "[^b]: ", "{.a}\n", "{#i}\n", "{k=v}\n", "{%c%}\n",
    "{.a\n .b}\n", "{}\n", "{k=\"a\n b\"}\n", "| a |\n", "| a | b |\n", "|-|\n", "|:-|-:|\n", "|---|:-:|\n", "^ cap\n", "|", "a\n", "b\n",
    "c", " ", "  ", "    ", "\t", "\n  ", "\n   ", "\n> ", "\n- ", "\n\n  ", "\n\n    ", "a", "b", "w x",
    "*a*", "`v`", "[a]", "[a][]", "[h](u)", "[^a]", "[^b]", "![a](s)", "{.a}", "é", "\r\n", "--", "...", "'", "\"",
    "\\", "h\n", "\\\n",
];

/// Concatenation of `n` fragments.
pub fn soup(r: &mut Rng, frags: &[&str], lo: usize, hi: usize) -> String {
    let n = r.range(lo, hi);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(r.pick(frags));
    }
    s
}

pub fn mixed_soup(r: &mut Rng) -> String {
    let n = r.range(1, 24);
    let mut s = String::new();
    for _ in 0..n {
        if r.chance(1, 2) {
            s.push_str(r.pick(BLOCK));
        } else {
            s.push_str(r.pick(INLINE));
        }
    }
    s
}

const WORDS: &[&str] = &["a", "b", "foo", "bar", "x1", "é", "h", "Q", "1", "to", "日本", "ß", "c-d", "e_f"];

pub fn attrs(r: &mut Rng) -> String {
    let mut s = String::from("{");
    let (hi, ml) = if r.chance(1, 10) { (9, true) } else { (3, false) };
    for i in 0..r.range(0, hi) {
        if i > 0 || r.chance(1, 5) {
            s.push_str(if ml && r.chance(2, 3) { r.pick::<&str>(&["\n", "\n ", "\n  "]) } else { r.pick::<&str>(&[" ", " ", "  ", "\t"]) });
        }
        match r.below(8) {
            0 | 1 => {
                s.push('.');
                s.push_str(r.pick::<&str>(&["a", "b", "c-d", "x:y", "_z", "9"]));
            }
            2 => {
                s.push('#');
                s.push_str(r.pick::<&str>(&["i", "j", "h", "a-b"]));
            }
            3 => s.push_str(r.pick::<&str>(&["k=v", "k=w", "l=1", "id=q", "class=d"])),
            4 => s.push_str(r.pick::<&str>(&["k=\"\"", "k=\"a b\"", "m=\"<&>\"", "n=\"\\\"q\\\"\"", "class=\"x y\"", "o=\"\\\\\"", "p=\"é\"", "id=\"\""])),
            5 => s.push_str(r.pick::<&str>(&["%c%", "%%", "% a b %", "%é%"])),
            _ => s.push_str(r.pick::<&str>(&[".a", ".b", "#i", "k=v"])),
        }
    }
    s.push('}');
    s
}

/// Structured inline content (single or several lines).
pub fn inline(r: &mut Rng, depth: usize, multiline: bool) -> String {
    let n = r.range(1, 4);
    let mut s = String::new();
    for i in 0..n {
        if i > 0 && r.chance(2, 3) {
            s.push(' ');
        }
        inline_elem(r, depth, multiline, &mut s);
    }
    s
}

fn inline_elem(r: &mut Rng, depth: usize, ml: bool, s: &mut String) {
    let k = if depth == 0 { r.below(14) } else { r.below(30) };
    match k {
        0..=4 => s.push_str(r.pick(WORDS)),
        5 => {
            s.push_str(r.pick(WORDS));
            s.push_str(if ml { r.pick::<&str>(&["\n", "\n", "\\\n", " \n"]) } else { " " });
            s.push_str(r.pick(WORDS));
        }
        6 => {
            let n = r.range(1, 9);
            s.push_str(&"-".repeat(n));
        }
        7 => {
            let n = r.range(1, 8);
            s.push_str(&".".repeat(n));
        }
        8 => {
            s.push('\\');
            s.push_str(r.pick::<&str>(&["*", "_", "\\", " ", "-", ".", "`", "[", "{", "\"", "a", "<", "&", "|", "$", "'", "~"]));
        }
        9 => s.push_str(r.pick::<&str>(&["<", ">", "&", "\"", "'", "a<b", "x&y", "\"q\"", "'q'", "&amp;", "<b>"])),
        10 => s.push_str(r.pick::<&str>(&["[^a]", "[^b]", "[^c]", "[^undef]", ":sym:", ":+1:", ":a_b-c:"])),
        11 => {
            let n = r.range(1, 3);
            let f = "`".repeat(n);
            let c = *r.pick::<&str>(&["v", "a b", " a ", "x<y", "--", "\\", "*a*", "'", "...", "&", " `` ", "` ` `", "a\\", "é", "{.a}", "[x]", "$", "  "]);
            match r.below(5) {
                0 => s.push_str(&format!("${f}{c}{f}")),
                1 => s.push_str(&format!("$${f}{c}{f}")),
                2 => s.push_str(&format!("{f}{c}{f}{{={}}}", r.pick::<&str>(&["html", "tex", "x"]))),
                _ => s.push_str(&format!("{f}{c}{f}")),
            }
            if r.chance(1, 5) {
                s.push_str(&attrs(r));
            }
        }
        12 => s.push_str(r.pick::<&str>(&["<http://e.x/?a=b&c=\"d\">", "<me@x.y>", "<a:b>", "<mailto:x@y>"])),
        13 => {
            s.push_str(r.pick(WORDS));
            s.push_str(&attrs(r));
        }
        14..=19 => {
            let inner = inline(r, depth - 1, ml);
            let (o, c) = *r.pick::<(&str, &str)>(&[
                ("*", "*"), ("_", "_"), ("^", "^"), ("~", "~"), ("{*", "*}"), ("{_", "_}"), ("{^", "^}"), ("{~", "~}"),
                ("{=", "=}"), ("{+", "+}"), ("{-", "-}"), ("'", "'"), ("\"", "\""), ("{'", "'}"), ("{\"", "\"}"),
            ]);
            s.push_str(o);
            s.push_str(&inner);
            s.push_str(c);
            if r.chance(1, 4) {
                s.push_str(&attrs(r));
            }
        }
        20..=22 => {
            let inner = inline(r, depth - 1, ml);
            if r.chance(1, 3) {
                s.push('!');
            }
            s.push_str(&format!("[{inner}]({})", r.pick::<&str>(&["u", "", "http://x/y?z=1&w=\"2\"", "a b", "<p>", "u\\)v", "é", "a'b"])));
            if r.chance(1, 4) {
                s.push_str(&attrs(r));
            }
        }
        23..=26 => {
            let inner = if r.chance(1, 2) { r.pick(LABELS).to_string() } else { inline(r, depth - 1, ml) };
            if r.chance(1, 3) {
                s.push('!');
            }
            let lab = if r.chance(1, 2) { "" } else { r.pick(LABELS) };
            s.push_str(&format!("[{inner}][{lab}]"));
            if r.chance(1, 5) {
                s.push_str(&attrs(r));
            }
        }
        _ => {
            let inner = inline(r, depth - 1, ml);
            s.push_str(&format!("[{inner}]"));
            s.push_str(&attrs(r));
        }
    }
}

pub const LABELS: &[&str] = &["a", "b", "foo", "bar", "h", "foo bar", "A", "é", "x1", "undef", "a*b", "Q"];

fn indent_lines(s: &str, prefix: &str, first: &str) -> String {
    let mut out = String::new();
    for (i, l) in s.split_inclusive('\n').enumerate() {
        if i == 0 {
            out.push_str(first);
            out.push_str(l);
        } else if l == "\n" {
            out.push('\n');
        } else {
            out.push_str(prefix);
            out.push_str(l);
        }
    }
    out
}

fn quote_lines(s: &str, lazy: bool, r: &mut Rng) -> String {
    let mut out = String::new();
    for l in s.split_inclusive('\n') {
        if l == "\n" {
            out.push_str(if r.chance(1, 4) { "> \n" } else { ">\n" });
        } else if lazy && !out.is_empty() && r.chance(1, 6) {
            out.push_str(l);
        } else {
            out.push_str("> ");
            out.push_str(l);
        }
    }
    out
}

pub fn marker(r: &mut Rng) -> String {
    match r.below(10) {
        0 => "-".into(),
        1 => "+".into(),
        2 => "*".into(),
        3 => format!("{} [{}]", r.pick::<&str>(&["-", "-", "*", "+"]), r.pick::<&str>(&[" ", "x", "X"])),
        4 => ":".into(),
        _ => {
            let num = number(r);
            match r.below(3) {
                0 => format!("{num}."),
                1 => format!("{num})"),
                _ => format!("({num})"),
            }
        }
    }
}

pub fn number(r: &mut Rng) -> String {
    match r.below(8) {
        0 => r.range(0, 12).to_string(),
        1 => r.range(0, 2000).to_string(),
        2 => ((b'a' + r.below(26) as u8) as char).to_string(),
        3 => ((b'A' + r.below(26) as u8) as char).to_string(),
        4 => roman(r.range(1, 30)),
        5 => roman(r.range(1, 3999)),
        6 => roman(r.range(1, 3999)).to_uppercase(),
        _ => {
            let hi = if r.chance(1, 6) { 19 } else { 5 };
            let n = r.range(1, hi);
            if r.chance(1, 2) {
                (0..n).map(|_| *r.pick(&['i', 'v', 'x', 'l', 'c', 'd', 'm'])).take(13).collect()
            } else {
                (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect()
            }
        }
    }
}

pub fn roman(mut n: usize) -> String {
    const T: &[(usize, &str)] = &[
        (1000, "m"), (900, "cm"), (500, "d"), (400, "cd"), (100, "c"), (90, "xc"), (50, "l"), (40, "xl"), (10, "x"),
        (9, "ix"), (5, "v"), (4, "iv"), (1, "i"),
    ];
    let mut s = String::new();
    for (v, t) in T {
        while n >= *v {
            s.push_str(t);
            n -= v;
        }
    }
    s
}

/// One structured block, ending with a newline.
pub fn block(r: &mut Rng, depth: usize) -> String {
    let k = if depth == 0 { r.below(14) } else { r.below(26) };
    let mut s = String::new();
    if r.chance(1, 7) {
        s.push_str(&attrs(r));
        s.push('\n');
        if r.chance(1, 8) {
            s.push('\n');
        }
    }
    match k {
        0..=3 => {
            s.push_str(&inline(r, 2, true));
            s.push('\n');
        }
        4..=5 => {
            let l = r.range(1, 4);
            s.push_str(&"#".repeat(l));
            s.push(' ');
            if r.chance(1, 2) {
                s.push_str(r.pick(LABELS));
            } else {
                s.push_str(&inline(r, 1, false));
            }
            s.push('\n');
            if r.chance(1, 8) {
                s.push_str(&"#".repeat(l));
                s.push_str(" b\n");
            }
        }
        6..=7 => s.push_str(&code_block(r)),
        8 => s.push_str(&table(r)),
        9 => {
            s.push_str(&format!("[{}]:", r.pick(LABELS)));
            s.push_str(r.pick::<&str>(&[" u\n", " http://x?a&b\n", "\n", " u\n v\n", " u\n  v\n w\n", " é\n", " a b\n"]));
        }
        10 => s.push_str(r.pick::<&str>(&["---\n", "* * *\n", "***\n", "- - -\n", "-----\n", "*-*\n"])),
        11 => {
            s.push_str(&format!("[^{}]:", r.pick::<&str>(&["a", "b", "c"])));
            s.push_str(r.pick::<&str>(&[" ", "\n", " "]));
            if s.ends_with('\n') {
                s.push_str("  ");
            }
            s.push_str(&inline(r, 1, false));
            s.push('\n');
            if r.chance(1, 3) {
                s.push_str("\n  second\n");
            }
        }
        12 => s.push_str(&inline(r, 1, false)),
        13 => {
            s.push_str(&soup(r, INLINE, 1, 8));
            s.push('\n');
        }
        14..=15 => {
            let inner = blocks(r, depth - 1, 3);
            let lazy = r.chance(1, 3);
            s.push_str(&quote_lines(&inner, lazy, r));
        }
        16..=20 => {
            let n = r.range(1, 3);
            let m0 = marker(r);
            for i in 0..n {
                let m = if r.chance(2, 3) { m0.clone() } else { marker(r) };
                let inner = blocks(r, depth - 1, 2);
                let w = if r.chance(1, 8) { 1 } else { m.chars().count() + 1 };
                s.push_str(&indent_lines(&inner, &" ".repeat(w), &format!("{m} ")));
                if i + 1 < n && r.chance(1, 3) {
                    s.push('\n');
                }
            }
        }
        21..=22 => {
            let n = r.range(3, 5);
            let inner = blocks(r, depth - 1, 2);
            s.push_str(&":".repeat(n));
            if r.chance(1, 2) {
                s.push_str(" cls");
            }
            s.push('\n');
            s.push_str(&inner);
            if !s.ends_with('\n') {
                s.push('\n');
            }
            if !r.chance(1, 6) {
                s.push_str(&":".repeat(n));
                s.push('\n');
            }
        }
        23..=24 => {
            let inner = blocks(r, depth - 1, 2);
            let lab = *r.pick::<&str>(&["a", "b", "c"]);
            s.push_str(&indent_lines(&inner, "  ", &format!("[^{lab}]: ")));
        }
        _ => {
            s.push_str(&soup(r, BLOCK, 1, 8));
            s.push('\n');
        }
    }
    s
}

pub fn code_block(r: &mut Rng) -> String {
    let c = if r.chance(3, 4) { '`' } else { '~' };
    let n = r.range(3, 5);
    let ind = if r.chance(1, 3) { r.range(1, 3) } else { 0 };
    let mut s = " ".repeat(ind);
    s.extend(std::iter::repeat(c).take(n));
    s.push_str(r.pick::<&str>(&["", "", " rust", " =html", " =tex", "c++", " <x>", " a&b", " é"]));
    s.push('\n');
    for _ in 0..r.range(0, 4) {
        s.push_str(r.pick::<&str>(&[
            "code\n", "\n", "  in\n", "    in4\n", "\tt\n", "<b>&\"\n", "```\n", "``\n", "~~~\n", "# h\n", "- l\n", "> q\n", "--- ... 'x'\n",
            "*a* _b_\n", "{.a}\n", "\\*\n", "tail  \n", "   \n", " x\n", ":::\n", "é\n", "`` ` \n",
        ]));
    }
    if !r.chance(1, 6) {
        s.push_str(&" ".repeat(if r.chance(1, 4) { r.range(0, 3) } else { ind }));
        s.extend(std::iter::repeat(c).take(if r.chance(1, 5) { n + 1 } else { n }));
        s.push('\n');
    }
    s
}

pub fn table(r: &mut Rng) -> String {
    let mut s = String::new();
    let cols = r.range(1, 4);
    for _ in 0..r.range(1, 5) {
        let c = if r.chance(1, 6) { r.range(1, 5) } else { cols };
        s.push_str(r.pick::<&str>(&["", "", "", " ", "  "]));
        s.push('|');
        let sep = r.chance(1, 3);
        for _ in 0..c {
            if sep {
                s.push_str(r.pick::<&str>(&["-", ":-", "-:", ":-:", "---", ":---", "---:", ":----:", " :-: ", " - ", "--", "::", " --", ":--:", "-:-", ":"]));
            } else {
                s.push_str(r.pick::<&str>(&[" ", " a ", "b", " *c* ", " `x|y` ", " \\| ", "", " d e ", " - ", " é ", " [a](u) ", " `v` ", "--", ":-", " \\\\ ", " a-- ", "-a-"]));
            }
            s.push('|');
        }
        s.push('\n');
    }
    if r.chance(1, 3) {
        if r.chance(1, 2) {
            s.push('\n');
        }
        s.push_str("^ cap *x*\n");
        if r.chance(1, 4) {
            s.push_str("more\n");
        }
    }
    s
}

pub fn blocks(r: &mut Rng, depth: usize, max: usize) -> String {
    let mut s = String::new();
    for i in 0..r.range(1, max) {
        if i > 0 && r.chance(4, 5) {
            if !s.ends_with('\n') {
                s.push('\n');
            }
            s.push('\n');
        }
        s.push_str(&block(r, depth));
    }
    if r.chance(1, 30) && !s.is_empty() {
        s.pop();
    }
    s
}

pub fn structured(r: &mut Rng) -> String {
    let d = r.range(0, 3);
    blocks(r, d, 6)
}

pub fn mutate(r: &mut Rng, s: &str) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 3) {
        if cs.is_empty() {
            break;
        }
        let i = r.below(cs.len());
        match r.below(5) {
            0 => {
                cs.remove(i);
            }
            1 => {
                let c = cs[r.below(cs.len())];
                cs.insert(i, c);
            }
            2 => {
                for (j, c) in r.pick(INLINE).chars().enumerate() {
                    cs.insert(i + j, c);
                }
            }
            3 => {
                for (j, c) in r.pick(BLOCK).chars().enumerate() {
                    cs.insert(i + j, c);
                }
            }
            _ => {
                let k = r.range(1, 6).min(cs.len() - i);
                cs.drain(i..i + k);
            }
        }
    }
    cs.into_iter().collect()
}

/// General documents: structured ones, fragment soup and mutations of structured ones.
pub fn document(r: &mut Rng) -> String {
    match r.below(12) {
        0..=3 => structured(r),
        4..=5 => {
            let s = structured(r);
            mutate(r, &s)
        }
        6..=7 => mixed_soup(r),
        8..=9 => soup(r, BLOCK, 1, 14),
        10 => soup(r, INLINE, 1, 14),
        _ => {
            let mut s = soup(r, INLINE, 1, 40);
            s.push_str("\n\n");
            s.push_str(&structured(r));
            s
        }
    }
}

// ---- property-specific mixes -----------------------------------------------------------------

pub fn lists_doc(r: &mut Rng) -> String {
    let mut s = String::new();
    let n = r.range(1, 6);
    let seq = r.below(5);
    let style = r.below(3);
    let start = r.range(1, 60);
    let base = if r.chance(1, 6) { r.range(1, 7) } else { 0 };
    for i in 0..n {
        let num = match seq {
            0 => Some((start + i).to_string()),
            1 => Some(((b'a' + ((start + i) % 26) as u8) as char).to_string()),
            2 => Some(roman(start + i)),
            3 => Some(roman(start + i).to_uppercase()),
            _ => None,
        };
        let m = match num {
            Some(n) if r.chance(4, 5) => match style {
                0 => format!("{n}."),
                1 => format!("{n})"),
                _ => format!("({n})"),
            },
            _ => marker(r),
        };
        let ind = if r.chance(1, 6) { r.range(1, 6) } else { 0 };
        s.push_str(&" ".repeat(ind + base));
        s.push_str(&m);
        s.push_str(r.pick::<&str>(&[" x\n", " x\n", " y\n  z\n", "\n", " x\n\n", " x\n\n   p\n", " x\n\n   - n\n", " x\n   - n\n", " - n\n", "x\n"]));
        if r.chance(1, 6) {
            s.push('\n');
        }
        if r.chance(1, 12) {
            s.push_str("para\n");
        }
    }
    s
}

pub fn tables_doc(r: &mut Rng) -> String {
    let t = table(r);
    match r.below(6) {
        0 => quote_lines(&t, false, r),
        1 => indent_lines(&t, "  ", "- "),
        2 => format!("{}\n{}", table(r), t),
        3 => format!("para\n\n{}\nafter\n", t),
        _ => t,
    }
}

pub fn headings_doc(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 7) {
        match r.below(12) {
            0 => s.push_str("[a]: u\n"),
            1 => s.push_str("para [foo][] and [b][bar]\n\n"),
            2 => {
                s.push_str(&attrs(r));
                s.push('\n');
            }
            3 => s.push_str("> # q\n"),
            4 => s.push_str("- # l\n"),
            _ => {
                let hi = if r.chance(1, 8) { 9 } else { 4 };
                let l = r.range(1, hi);
                if r.chance(1, 5) {
                    s.push_str(&attrs(r));
                    s.push('\n');
                }
                s.push_str(&"#".repeat(l));
                s.push_str(r.pick::<&str>(&[
                    " foo", " foo bar", " foo", " bar", "", " a *b* c", " foo-1", " 1", " *", " s", " s-1", " é x", " a--b", " foo's", " `v` x",
                    " foo\nbar", " a [l](u)", " A", "  b ", " x{#id}", " foo\n", " x:y", " ...", " :s:", " a_b", " foo-2", " \\*",
                ]));
                s.push_str(r.pick::<&str>(&["\n", "\n\n", "\n\n", "\n\npara\n\n"]));
            }
        }
    }
    s
}

pub fn links_doc(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 6) {
        match r.below(8) {
            0..=2 => {
                if r.chance(1, 4) {
                    s.push_str(&attrs(r));
                    s.push('\n');
                }
                s.push_str(&format!("[{}]:{}", r.pick(LABELS), r.pick::<&str>(&[" u\n", " v\n", "\n", " u1\n u2\n", " é\n", " u1\n  u2\n   u3\n", " x \n", "w\n", "   sp\n"])));
                if r.chance(1, 2) {
                    s.push('\n');
                }
            }
            3 => s.push_str(&format!("# {}\n\n", r.pick(LABELS))),
            4 => {
                let d = blocks(r, 1, 2);
                s.push_str(&d);
                s.push_str("\n\n");
            }
            _ => {
                let img = if r.chance(1, 4) { "!" } else { "" };
                let t = if r.chance(1, 3) { inline(r, 1, true) } else { r.pick(LABELS).to_string() };
                let l = if r.chance(1, 3) { "" } else { r.pick(LABELS) };
                s.push_str(&format!("{img}[{t}][{l}]"));
                if r.chance(1, 4) {
                    s.push_str(&attrs(r));
                }
                s.push_str(r.pick::<&str>(&["\n\n", " ", "\n", ", "]));
            }
        }
    }
    s
}

pub fn footnotes_doc(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 7) {
        match r.below(7) {
            0..=2 => s.push_str(&format!("t[^{}] x[^{}]\n\n", r.pick::<&str>(&["a", "b", "c", "d"]), r.pick::<&str>(&["a", "b", "c", "é", ""]))),
            3 => {
                let inner = blocks(r, 1, 3);
                s.push_str(&indent_lines(&inner, "  ", &format!("[^{}]: ", r.pick::<&str>(&["a", "b", "c"]))));
                s.push('\n');
            }
            4 => s.push_str(&format!("[^{}]: note[^{}]\n\n", r.pick::<&str>(&["a", "b", "c"]), r.pick::<&str>(&["a", "b", "d"]))),
            5 => s.push_str("> quote[^a]\n\n- item[^b]\n\n"),
            _ => {
                s.push_str(&block(r, 1));
                s.push('\n');
            }
        }
    }
    s
}

pub fn code_doc(r: &mut Rng) -> String {
    match r.below(8) {
        0 => {
            let c = code_block(r);
            quote_lines(&c, false, r)
        }
        1 => {
            let c = code_block(r);
            indent_lines(&c, "  ", "- ")
        }
        2 => {
            let c = code_block(r);
            format!(":::\n{c}:::\n")
        }
        3..=4 => code_block(r),
        5 => format!("{}\n{}\n{}", code_block(r), inline(r, 1, true), code_block(r)),
        _ => {
            let mut s = String::new();
            for _ in 0..r.range(1, 5) {
                s.push_str(r.pick::<&str>(&[
                    "`", "``", "```", " ", "  ", "a", "b c", "\n", "\\", "*", "{=html}", "{.a}", "$", "$$", "`x`", "<&>", "--", "'", "é", "[^a]", "{", "}", "\t", "\\`", "\\$",
                ]));
                if r.chance(1, 3) {
                    s.push_str(&inline(r, 0, true));
                }
            }
            s
        }
    }
}

pub fn punct_doc(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 6) {
        match r.below(8) {
            0..=2 => {
                let n = if r.chance(1, 10) { r.range(1, 120) } else { r.range(1, 14) };
                s.push_str(&"-".repeat(n));
            }
            3..=4 => {
                let n = if r.chance(1, 10) { r.range(1, 100) } else { r.range(1, 9) };
                s.push_str(&".".repeat(n));
            }
            _ => s.push_str(r.pick::<&str>(&["a", " ", "b c", "\\", "}", "{", "{-", "-}", "*", "\n", "`", "'", "é", "\\-", "\\.", "[", "](u)"])),
        }
    }
    s
}

/// Strings over an attribute-flavoured alphabet.
pub const ATTR_FRAGS: &[&str] = &[
    "{", "}", "}", ".", "#", "%", "a", "b", "ab", "=", "\"", "\"", "\\", "\\\"", "\\\\", "\n", " ", " ", "\t", "k=v", "k=\"", "k=\"v\"", ".c", "#i",
    "%c%", "é", "$", "-", "_", ":", "class=", "id=", "}{", "\r", "0", "<", "\u{b}", "\u{c}", "\\a", "'", "x y",
];

pub fn attr_string(r: &mut Rng) -> String {
    match r.below(4) {
        0 => soup(r, ATTR_FRAGS, 1, 10),
        1 => {
            let mut s = String::from("{");
            s.push_str(&soup(r, ATTR_FRAGS, 0, 10));
            s.push('}');
            s
        }
        2 => {
            let mut s = String::new();
            for _ in 0..r.range(1, 3) {
                s.push_str(&attrs(r));
            }
            s.push_str(r.pick::<&str>(&["", "", " ", "\n", " x", "{"]));
            s
        }
        _ => {
            let a = attrs(r);
            mutate(r, &a)
        }
    }
}

// ---- small variations of a document ------------------------------------------------------------

const SPACES: &[&str] = &["\t", "\u{a0}", "\u{2003}", "\u{3000}", "\u{85}", "\u{2028}", "\r\n", "\n", "\n", "  ", "   ", "", "\u{b}", "\u{c}", " \n", "\n ", "\n\n", "\r", "é", "\u{200b}"];

/// Changes of indentation, white space, line breaks and adjacent characters that keep most of the structure.
pub fn perturb(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..[1, 1, 1, 2, 2, 3, 5][r.below(7)] {
        if c.is_empty() {
            break;
        }
        let starts: Vec<usize> = (0..c.len()).filter(|&i| i == 0 || c[i - 1] == '\n').collect();
        let put = |c: &mut Vec<char>, i: usize, t: &str| {
            let t: Vec<char> = t.chars().collect();
            c.splice(i..i, t);
        };
        match r.below(12) {
            0..=2 => {
                // indent a line, a few lines, or all of them
                let k = r.below(starts.len());
                let n = [1, 1, 2, 3, starts.len()][r.below(5)];
                let ind = if r.chance(1, 8) { "\t".into() } else { " ".repeat(r.range(1, 8)) };
                for &i in starts[k..(k + n).min(starts.len())].iter().rev() {
                    if c[i] != '\n' || r.chance(1, 3) {
                        put(&mut c, i, &ind);
                    }
                }
            }
            3 => {
                // less indentation
                let i = *r.pick(&starts);
                let n = r.range(1, 4);
                for _ in 0..n {
                    if i < c.len() && c[i] == ' ' {
                        c.remove(i);
                    }
                }
            }
            4 => {
                let w: Vec<usize> = (0..c.len()).filter(|&i| c[i].is_whitespace()).collect();
                if !w.is_empty() {
                    let i = *r.pick(&w);
                    c.remove(i);
                    let t = *r.pick(SPACES);
                    put(&mut c, i, t);
                }
            }
            5..=7 => {
                // next to a symbol
                let w: Vec<usize> = (0..c.len()).filter(|&i| c[i].is_ascii_punctuation()).collect();
                if !w.is_empty() {
                    let i = *r.pick(&w);
                    let t = match r.below(6) {
                        0..=2 => r.pick(SPACES).to_string(),
                        3 => c[i].to_string(),
                        4 => "\\".to_string(),
                        _ => r.pick::<&str>(&["é", "a", "1", "\u{10ffff}", "{}", "*", "_", "`", "[", "]"]).to_string(),
                    };
                    put(&mut c, i + r.below(2), &t);
                }
            }
            8 => {
                // break a line, keeping its marker
                let i = r.below(c.len());
                let l = starts.iter().rev().find(|&&x| x <= i).copied().unwrap_or(0);
                let t = if c[l] == '>' { "\n> " } else { *r.pick::<&str>(&["\n", "\n  ", "\n   "]) };
                put(&mut c, i, t);
            }
            9 => {
                let i = *r.pick(&starts);
                put(&mut c, i, *r.pick::<&str>(&["\n", "\n\n", ">\n", " \n", "\t\n", "> \n"]));
            }
            10 => {
                let e: Vec<usize> = (0..c.len()).filter(|&i| c[i] == '\n').collect();
                if !e.is_empty() {
                    let i = *r.pick(&e);
                    match r.below(4) {
                        0 => {
                            c.remove(i);
                        }
                        1 => c.truncate(i),
                        _ => put(&mut c, i, *r.pick::<&str>(&[" ", "  ", "\t", "\r", "\\", "\u{a0}"])),
                    }
                }
            }
            _ => {
                // a line again
                let k = r.below(starts.len());
                let e = starts.get(k + 1).copied().unwrap_or(c.len());
                let t: String = c[starts[k]..e].iter().collect();
                put(&mut c, starts[k], &if t.ends_with('\n') { t } else { t + "\n" });
            }
        }
    }
    c.into_iter().collect()
}

// ---- large documents ---------------------------------------------------------------------------

/// Documents that are large in one respect: counts, lengths, nesting depths and offsets beyond the small ones.
/// `n` is how large.
pub fn scaled(prop: &str, r: &mut Rng, n: usize) -> String {
    let n = n.max(2);
    match prop {
        "A01" => {
            let m = n.min(3000);
            let mut s = String::from("{");
            match r.below(4) {
                0 => {
                    for i in 0..m.min(400) {
                        s.push_str(&match r.below(4) {
                            0 => format!(".c{i} "),
                            1 => format!("k{i}=v{i} "),
                            2 => format!("#i{i} "),
                            _ => "%c% ".to_string(),
                        });
                    }
                }
                1 => {
                    let v = "ab".repeat(m);
                    s.push_str(&match r.below(5) {
                        0 => format!(".{v}"),
                        1 => format!("#{v}"),
                        2 => format!("{v}={v}"),
                        3 => format!("k=\"{v}\""),
                        _ => format!("%{v}%"),
                    });
                }
                2 => {
                    s.push_str("k=\"");
                    s.push_str(&r.pick::<&str>(&["\\\"", "\\\\", "a\n", "  ", "\\", "é"]).repeat(m));
                    s.push('"');
                }
                _ => {
                    s.push_str(&r.pick::<&str>(&[" ", "\n", "\t", "%%", ".a ", "k=v "]).repeat(m));
                    s.push_str(&soup(r, ATTR_FRAGS, 0, 4));
                }
            }
            s.push('}');
            s.push_str(r.pick::<&str>(&["", "x", "{.a}"]));
            return s;
        }
        "A02" => {
            let mut s = String::new();
            for i in 0..n.min(300) {
                s.push_str(&match r.below(6) {
                    0 => format!(".c{i}\n"),
                    1 => format!("#i{i}\n"),
                    2 => format!("k{}=v{i}\n", i % 7),
                    3 => format!("k{i}=v\n"),
                    4 => format!("class=d{i}\n"),
                    _ => "%\n".to_string(),
                });
            }
            return s;
        }
        "A03" => {
            let f = *r.pick::<&str>(&["\\a", "\\\\", "a", "\\\"", "é", "\\", "a\\", "\\é"]);
            return f.repeat(n.min(5000)) + &soup(r, ATTR_FRAGS, 0, 4);
        }
        _ => {}
    }
    let c = n.min(400);
    let pick = match prop {
        "H03" => *r.pick::<usize>(&[0, 0, 0, 3, 7, 8, 9]),
        "P06" | "P07" => *r.pick::<usize>(&[1, 1, 2, 2, 4, 8, 9]),
        "P08" => *r.pick::<usize>(&[3, 6, 6, 8, 9]),
        "P09" => *r.pick::<usize>(&[5, 5, 8, 9]),
        "P10" => *r.pick::<usize>(&[4, 5, 7, 9]),
        "P11" => *r.pick::<usize>(&[7, 7, 4, 9]),
        "P12" => *r.pick::<usize>(&[10, 10, 4, 9]),
        "P13" => *r.pick::<usize>(&[0, 1, 2, 3, 5, 6, 7, 8, 10]),
        _ => r.below(11),
    };
    let mut s = String::new();
    match pick {
        0 => {
            // footnotes: many labels, referred to again later
            for i in 0..c {
                s.push_str(&format!("t[^n{i}]"));
                if r.chance(1, 4) {
                    s.push_str(&format!(" r[^n{}]", r.below(i + 1)));
                }
                s.push_str(r.pick::<&str>(&[" ", "\n", "\n\n"]));
            }
            s.push_str("\n\n");
            for i in 0..c {
                if r.chance(3, 4) {
                    s.push_str(&format!("[^n{i}]: note {i}"));
                    if r.chance(1, 6) {
                        s.push_str(&format!("[^n{}]", r.below(c + 3)));
                    }
                    s.push_str("\n\n");
                }
            }
        }
        1 => {
            // headings, equal and distinct, referred to
            let eq = r.below(3);
            for i in 0..c {
                let l = r.range(1, 4);
                let t = match eq {
                    0 => "foo".to_string(),
                    1 => format!("h{}", r.below(c)),
                    _ => format!("foo-{}", r.below(12)),
                };
                if r.chance(1, 9) {
                    s.push_str(&attrs(r));
                    s.push('\n');
                }
                s.push_str(&format!("{} {t}\n\n", "#".repeat(l)));
                if r.chance(1, 8) {
                    s.push_str(&format!("[{t}][] [h{}][]\n\n", r.below(c)));
                }
                let _ = i;
            }
        }
        2 => {
            // link definitions
            for i in 0..c {
                if r.chance(1, 9) {
                    s.push_str(&attrs(r));
                    s.push('\n');
                }
                s.push_str(&format!("[l{i}]: u{i}\n"));
                if r.chance(1, 5) {
                    s.push_str(&format!("\n[x][l{}] [l{}][]\n\n", r.below(c), r.below(c)));
                }
            }
        }
        3 => {
            // nesting of blocks
            let d = n.min(60);
            let mut inner = "x *y*\n".to_string();
            for k in 0..d {
                inner = match r.below(4) {
                    0 => quote_lines(&inner, false, r),
                    1 => indent_lines(&inner, "  ", "- "),
                    2 => indent_lines(&inner, "   ", "1. "),
                    _ => format!("{c} c{k}\n{inner}{c}\n", c = ":".repeat(3 + k)),
                };
            }
            s.push_str(&inner);
            s.push_str("\nend\n");
        }
        4 => {
            // one long thing
            let w = r.pick::<&str>(&["ab", "a ", "é", "a*b*", "a-", "&", "\\*", "a\n"]).repeat(n.min(70_000) / 2 + 1);
            let flat = w.replace('\n', " ");
            s.push_str(&match r.below(14) {
                0 => format!("# {flat}\n\nx\n"),
                1 => format!("# {flat}\n\n# {flat}\n\n[{flat}][]\n"),
                2 => format!("``{w}``{{.a}}\n"),
                3 => format!("[x]({w})\n"),
                4 => format!("[{flat}][] x\n\n[{flat}]: u\n"),
                5 => format!("[a][b]\n\n[b]: {}\n", flat.replace(' ', "")),
                6 => format!("{{k=\"{}\"}}\nx\n", flat.replace('\\', "")),
                7 => format!("|a|{flat}|\n|-|-:|\n|b|c|\n"),
                8 => format!("```\n{w}\n```\n"),
                9 => format!("[^a] x\n\n[^a]: {flat}\n"),
                10 => format!("::: {}\nx\n:::\n", "c".repeat(w.len().min(70_000))),
                11 => format!("- {w}\n- x\n"),
                12 => format!("*{w}* _{flat}_\n"),
                _ => format!("{w}\n"),
            });
        }
        5 => {
            // runs of one symbol
            let f = *r.pick::<&str>(&["-", "-", ".", "`", "`", "*", "_", ":", "#", "=", "~", "'", "\"", "[", "]", "{", "}", "|", "\\", "$", "!", "<", ">", "^"]);
            let run = f.repeat(n.min(3000));
            s.push_str(&match r.below(5) {
                0 => format!("{run}\n"),
                1 => format!("a{run}b\n"),
                2 => format!("a {run} b {run} c\n"),
                3 => format!("{run}\nx\n{run}\n"),
                _ => format!("x {run}a{run} {}\n", f.repeat(r.range(1, 5))),
            });
        }
        6 => {
            // items and numbers
            let st = r.below(5);
            let start = r.range(1, 3000);
            for i in 0..c {
                let m = match st {
                    0 => format!("{}.", start + i),
                    1 => format!("({})", roman(1 + (start + i) % 3999)),
                    2 => "-".to_string(),
                    3 => format!("{})", r.pick::<&str>(&["1", "2", "33"])),
                    _ => format!("{}.", (b'a' + (i % 26) as u8) as char),
                };
                s.push_str(&format!("{m} x{i}\n"));
                if r.chance(1, 40) {
                    s.push('\n');
                }
            }
        }
        7 => {
            // tables
            let (rows, cols) = if r.chance(1, 2) { (c, r.range(1, 4)) } else { (r.range(1, 4), c) };
            for i in 0..rows {
                s.push('|');
                let sep = r.chance(1, 6);
                for j in 0..cols {
                    if sep {
                        s.push_str(r.pick::<&str>(&["-", ":-", "-:", ":-:", "---"]));
                    } else {
                        s.push_str(&format!("{i}.{j}"));
                    }
                    s.push('|');
                }
                s.push('\n');
            }
            if r.chance(1, 2) {
                s.push_str("\n^ cap\n");
            }
        }
        8 => {
            // everything at a large offset
            s.push_str(&"0123456 \n".repeat(n.min(9000)));
            s.push_str("\n\n");
            s.push_str(&structured(r));
        }
        9 => {
            // many inline elements in one paragraph
            for _ in 0..c {
                inline_elem(r, 1, true, &mut s);
                s.push(' ');
            }
            s.push('\n');
        }
        _ => {
            // attributes, many and long
            s.push('{');
            for i in 0..c {
                s.push_str(&match r.below(4) {
                    0 => format!(".c{i}"),
                    1 => format!("k{i}=\"v w{i}\""),
                    2 => format!("#i{i}"),
                    _ => "%c d%".to_string(),
                });
                s.push_str(r.pick::<&str>(&[" ", " ", "\n "]));
            }
            s.push('}');
            s = match r.below(3) {
                0 => format!("{s}\nx y\n"),
                1 => format!("x *y*{s} z\n"),
                _ => format!("[l]{s}{{.z}}\n\nw{s}\n"),
            };
        }
    }
    s
}
