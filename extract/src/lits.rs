//! Lemmas about string literals: the state of the scanner of contracts/html.vc after a literal.
//! Only the statements are computed here; Verus proves them from the definition of the scanner.

use crate::edit::lit;

#[derive(Clone, Copy, PartialEq, Debug)]
enum M {
    Text,
    AmpT,
    Lt,
    Name,
    EndName,
    In,
    Val,
    AmpV,
}

#[derive(Clone)]
struct S {
    m: M,
    n: String,
    val: Option<u128>,
    st: String,
    /// Known entries on top of `st`, last pushed last.
    conds: Vec<String>,
    pushed: Vec<String>,
    popped: usize,
    /// The entry closed by this step.
    was: Option<String>,
}

const VOID: [u128; 4] = [0x696d67, 0x6872, 0x6272, 0x696e707574];

impl S {
    fn name(&mut self, c: u8) -> Option<()> {
        match self.val {
            Some(v) => {
                let v = v.checked_mul(256)?.checked_add(c.into())?;
                self.val = Some(v);
                self.n = v.to_string();
            }
            None => self.n = format!("(({}) * 256 + {c})", self.n),
        }
        Some(())
    }
    fn set(&mut self, m: M, v: u128) {
        self.m = m;
        self.val = Some(v);
        self.n = v.to_string();
    }
    fn close(&mut self) -> Option<()> {
        match self.val {
            Some(v) if VOID.contains(&v) => {}
            Some(_) => self.pushed.push(self.n.clone()),
            None => {
                self.conds.push(format!("!void({})", self.n));
                self.pushed.push(self.n.clone());
            }
        }
        self.set(M::Text, 0);
        Some(())
    }
    fn pop(&mut self) -> Option<()> {
        match self.pushed.pop() {
            Some(p) => {
                if p != self.n {
                    self.conds.push(format!("{p} == {}", self.n));
                }
                self.was = Some(p);
            }
            None => {
                self.popped += 1;
                self.conds.push(format!("l.st.len() >= {} && l.st[l.st.len() - {}] == {}", self.popped, self.popped, self.n));
            }
        }
        self.set(M::Text, 0);
        Some(())
    }
    fn step(&mut self, c: u8) -> Option<()> {
        let low = c.is_ascii_lowercase() || c.is_ascii_digit();
        match self.m {
            M::Text => match c {
                b'<' => self.set(M::Lt, 0),
                b'>' => return None,
                b'&' => self.set(M::AmpT, 0),
                _ => {}
            },
            M::AmpT | M::AmpV => match c {
                b';' if self.m == M::AmpT => self.set(M::Text, 0),
                b';' => self.m = M::Val,
                _ if low => {}
                _ => return None,
            },
            M::Lt if c == b'/' => self.set(M::EndName, 0),
            M::Lt if low => self.set(M::Name, c.into()),
            M::Lt => return None,
            M::Name => match c {
                _ if low => self.name(c)?,
                b' ' => self.m = M::In,
                b'>' => self.close()?,
                _ => return None,
            },
            M::EndName => match c {
                _ if low => self.name(c)?,
                b'>' => self.pop()?,
                _ => return None,
            },
            M::In => match c {
                b'"' => self.m = M::Val,
                b'>' => self.close()?,
                b'<' | b'&' | b'\'' => return None,
                _ => {}
            },
            M::Val => match c {
                b'"' => self.m = M::In,
                b'<' | b'>' => return None,
                b'&' => self.m = M::AmpV,
                _ => {}
            },
        }
        Some(())
    }
}

pub fn lemma(k: usize, text: &str) -> String {
    let b = text.as_bytes();
    let l = lit(text);
    let mut ens = String::new();
    let mut steps = String::new();
    // a tag whose name is symbolic is closed explicitly
    for (m, name) in [(M::Text, "0"), (M::Name, "l.n"), (M::EndName, "l.n"), (M::In, "l.n"), (M::Val, "l.n")] {
        let mut s = S { m, n: name.into(), val: if m == M::Text { Some(0) } else { None }, st: "l.st".into(), conds: vec![], pushed: vec![], popped: 0, was: None };
        let mut ok = true;
        // states after each character, for long literals
        let mut chain: Vec<String> = vec![];
        let mut zero = m != M::Text;
        let mut extra = String::new();
        for (i, c) in b.iter().enumerate() {
            // `>` on a symbolic name, as the only character
            if *c == b'>' && (b.len() == 1 || !matches!(s.m, M::EndName)) && s.val.is_none() && i + 1 == b.len() && matches!(s.m, M::Name | M::In | M::EndName) && s.pushed.is_empty() && s.popped == 0 {
                let n = s.n.clone();
                if s.m == M::EndName {
                    extra = format!("(l.m is {m:?} && l.st.len() > 0 && l.st.last() == {n} ==> scan(l, sb({l})) == lx(M::Text, 0, l.st.drop_last()))");
                } else {
                    let c: String = s.conds.iter().map(|c| format!(" && {c}")).collect();
                    extra = format!("(l.m is {m:?}{c} ==> scan(l, sb({l})) == close(lx(M::In, {n}, l.st)))");
                }
                ok = false;
                break;
            }
            if s.step(*c).is_none() {
                ok = false;
                break;
            }
            zero |= matches!(c, b'<' | b'&');
            let mut st = s.st.clone();
            for _ in 0..s.popped {
                st += ".drop_last()";
            }
            for p in &s.pushed {
                st += &format!(".push({p})");
            }
            if let Some(p) = s.was.take() {
                chain.push(format!("        assert({st}.push({p}).drop_last() =~= {st});\n"));
            }
            chain.push(format!("        assert(sc(l, sb({l}), {}) == lx(M::{:?}, {}, {st}));\n", i + 1, s.m, if zero { &s.n } else { "l.n" }));
        }
        if ok {
            let mut st = s.st.clone();
            for _ in 0..s.popped {
                st += ".drop_last()";
            }
            for p in &s.pushed {
                st += &format!(".push({p})");
            }
            let keep = s.m == m && s.popped == 0 && s.pushed.is_empty() && s.n == name && m != M::Text;
            let r = if keep { "l".into() } else { format!("lx(M::{:?}, {}, {st})", s.m, s.n) };
            let r = if m == M::Text && s.m == M::Text && s.popped == 0 && s.pushed.is_empty() { "lx(M::Text, if text_zero() { 0 } else { l.n }, l.st)".replace("if text_zero() { 0 } else { l.n }", if b.iter().any(|c| matches!(c, b'<' | b'&')) { "0" } else { "l.n" }) } else { r };
            let mut c = vec![format!("l.m is {m:?}")];
            c.extend(s.conds.clone());
            if b.len() > 12 {
                steps += &format!("    if {} {{\n{}    }}\n", c.join(" && "), chain.concat());
            }
            ens += &format!("        ({} ==> scan(l, sb({l})) == {r}),\n", c.join(" && "));
        } else if !extra.is_empty() {
            ens += &format!("        {extra},\n");
        }
    }
    let mut chars: Vec<char> = text.chars().filter(|c| !c.is_ascii()).collect();
    chars.dedup();
    let ascii = chars.is_empty();
    let mut proof = String::new();
    let mut pre = String::new();
    if ascii {
        proof += &format!("    assert(is_ascii_chars({l}@));\n");
    } else {
        let n = text.chars().count();
        let cs: Vec<String> = text.chars().map(|c| if c.is_ascii() && c != '\'' && c != '\\' { format!("'{c}'") } else { format!("'\\u{{{:x}}}'", c as u32) }).collect();
        let bs: Vec<String> = b.iter().map(|b| format!("{b}u8")).collect();
        for c in &chars {
            let mut buf = [0u8; 4];
            let e: Vec<String> = c.encode_utf8(&mut buf).bytes().map(|b| format!("{b}u8")).collect();
            proof += &format!("    assert(encode_scalar({}u32) =~= seq![{}]) by (compute);\n", *c as u32, e.join(", "));
        }
        let mut ascii: Vec<char> = text.chars().filter(|c| c.is_ascii()).collect();
        ascii.sort_unstable();
        ascii.dedup();
        for c in ascii {
            proof += &format!("    assert(encode_scalar({}u32) =~= seq![{}u8]) by (compute);\n", c as u32, c as u32);
        }
        proof += &format!("    assert({l}@ =~= seq![{}]);\n    reveal_with_fuel(encode_utf8, {});\n    assert(sb({l}) =~= seq![{}]);\n", cs.join(", "), n + 1, bs.join(", "));
    }
    if !ascii {
        pre = format!("#[verifier::rlimit(40)]\nproof fn lit_{k}_bytes()\n    ensures sb({l}) == seq![{}]\n{{\n    reveal_strlit({l});\n    broadcast use group_utf8_lib;\n{proof}}}\n", b.iter().map(|b| format!("{b}u8")).collect::<Vec<_>>().join(", "));
        proof = format!("    lit_{k}_bytes();\n");
    }
    format!(
        "{pre}broadcast proof fn lit_{k}(l: Lx)\n    ensures\n        #[trigger] scan(l, sb({l})) == scan(l, sb({l})),\n{ens}{{\n    reveal_strlit({l});\n    broadcast use group_utf8_lib;\n{proof}    reveal_with_fuel(sc, {});\n{steps}}}\n\n",
        if b.len() > 12 { 2 } else { b.len() + 2 }
    )
}
