//! Minimal ECMA-style regex matcher (unanchored search): literals, escapes, \d \w \s, '.', classes,
//! groups, alternation, ^ $, and the * + ? {m,n} quantifiers.
enum N {
    Lit(char),
    Any,
    Cls(Vec<(char, char)>, bool),
    Grp(Vec<Vec<N>>),
    Rep(Box<N>, usize, usize),
    Bol,
    Eol,
}
struct P<'a> {
    c: &'a [char],
    i: usize,
}
impl P<'_> {
    fn alt(&mut self) -> Vec<Vec<N>> {
        let mut alts = vec![self.seq()];
        while self.i < self.c.len() && self.c[self.i] == '|' {
            self.i += 1;
            alts.push(self.seq());
        }
        alts
    }
    fn esc(&mut self) -> N {
        let c = self.c[self.i];
        self.i += 1;
        match c {
            'd' => N::Cls(vec![('0', '9')], false),
            'D' => N::Cls(vec![('0', '9')], true),
            'w' => N::Cls(vec![('0', '9'), ('a', 'z'), ('A', 'Z'), ('_', '_')], false),
            's' => N::Cls(vec![(' ', ' '), ('\t', '\r')], false),
            'n' => N::Lit('\n'),
            't' => N::Lit('\t'),
            'r' => N::Lit('\r'),
            c => N::Lit(c),
        }
    }
    fn num(&mut self) -> Option<usize> {
        let mut r = None;
        while self.i < self.c.len() && self.c[self.i].is_ascii_digit() {
            r = Some(r.unwrap_or(0) * 10 + (self.c[self.i] as usize - '0' as usize));
            self.i += 1;
        }
        r
    }
    fn seq(&mut self) -> Vec<N> {
        let mut v = Vec::new();
        while self.i < self.c.len() {
            let c = self.c[self.i];
            if c == '|' || c == ')' {
                break;
            }
            self.i += 1;
            let mut n = match c {
                '.' => N::Any,
                '^' => N::Bol,
                '$' => N::Eol,
                '\\' => self.esc(),
                '(' => {
                    if self.i + 1 < self.c.len() && self.c[self.i] == '?' && self.c[self.i + 1] == ':' {
                        self.i += 2;
                    }
                    let a = self.alt();
                    self.i += 1;
                    N::Grp(a)
                }
                '[' => {
                    let mut neg = false;
                    if self.c[self.i] == '^' {
                        neg = true;
                        self.i += 1;
                    }
                    let mut r = Vec::new();
                    while self.c[self.i] != ']' {
                        let mut lo = self.c[self.i];
                        self.i += 1;
                        if lo == '\\' {
                            match self.esc() {
                                N::Cls(mut x, _) => {
                                    r.append(&mut x);
                                    continue;
                                }
                                N::Lit(c) => lo = c,
                                _ => {}
                            }
                        }
                        let mut hi = lo;
                        if self.c[self.i] == '-' && self.c[self.i + 1] != ']' {
                            self.i += 1;
                            hi = self.c[self.i];
                            self.i += 1;
                        }
                        r.push((lo, hi));
                    }
                    self.i += 1;
                    N::Cls(r, neg)
                }
                c => N::Lit(c),
            };
            if self.i < self.c.len() {
                let q = self.c[self.i];
                let rep = match q {
                    '*' => Some((0, usize::MAX)),
                    '+' => Some((1, usize::MAX)),
                    '?' => Some((0, 1)),
                    '{' => {
                        let save = self.i;
                        self.i += 1;
                        let lo = self.num();
                        let r = if self.i < self.c.len() && self.c[self.i] == ',' {
                            self.i += 1;
                            let hi = self.num();
                            (lo.unwrap_or(0), hi.unwrap_or(usize::MAX))
                        } else {
                            (lo.unwrap_or(0), lo.unwrap_or(0))
                        };
                        if lo.is_some() && self.i < self.c.len() && self.c[self.i] == '}' {
                            Some(r)
                        } else {
                            self.i = save;
                            None
                        }
                    }
                    _ => None,
                };
                if let Some((a, b)) = rep {
                    self.i += 1;
                    n = N::Rep(Box::new(n), a, b);
                }
            }
            v.push(n);
        }
        v
    }
}
fn m(seq: &[N], s: &[char], i: usize, k: &mut dyn FnMut(usize) -> bool) -> bool {
    let (n, rest) = match seq.split_first() {
        None => return k(i),
        Some(x) => x,
    };
    match n {
        N::Bol => i == 0 && m(rest, s, i, k),
        N::Eol => i == s.len() && m(rest, s, i, k),
        N::Grp(alts) => {
            for a in alts {
                if m(a, s, i, &mut |j| m(rest, s, j, k)) {
                    return true;
                }
            }
            false
        }
        N::Rep(n, lo, hi) => rep(n, *lo, *hi, rest, s, i, k),
        _ => i < s.len() && one(n, s[i]) && m(rest, s, i + 1, k),
    }
}
fn one(n: &N, c: char) -> bool {
    match n {
        N::Lit(x) => *x == c,
        N::Any => c != '\n' && c != '\r',
        N::Cls(r, neg) => r.iter().any(|(a, b)| *a <= c && c <= *b) != *neg,
        _ => false,
    }
}
fn rep(n: &N, lo: usize, hi: usize, rest: &[N], s: &[char], i: usize, k: &mut dyn FnMut(usize) -> bool) -> bool {
    if hi > 0 {
        let nh = if hi == usize::MAX { hi } else { hi - 1 };
        let r = match n {
            N::Grp(alts) => alts.iter().any(|a| m(a, s, i, &mut |j| (j > i || lo > 0) && rep(n, lo.saturating_sub(1), nh, rest, s, j, k))),
            _ => i < s.len() && one(n, s[i]) && rep(n, lo.saturating_sub(1), nh, rest, s, i + 1, k),
        };
        if r {
            return true;
        }
    }
    lo == 0 && m(rest, s, i, k)
}
pub fn is_match(pat: &str, s: &str) -> bool {
    let pc: Vec<char> = pat.chars().collect();
    let sc: Vec<char> = s.chars().collect();
    let alts = P { c: &pc, i: 0 }.alt();
    for st in 0..=sc.len() {
        for a in &alts {
            if m(a, &sc, st, &mut |_| true) {
                return true;
            }
        }
    }
    false
}
