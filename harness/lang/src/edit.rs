//! Texts near a well-formed route file: a file with symbolic edits.

pub const FILES: &[&str] = &[
    "use a;\n/\n  [l: S]\n  GET m::A\n    [q: T]\n  POST -> B\n  s\n    [k: V]\n    PUT m::N::C\n    {id: U}\n      DELETE D\n  t\n    GET E\n",
    "\n#![x]\n\nuse b;\n/\n  {p: T}\n    x\n      [q: T]\n      y\n        GET A\n      z\n        GET B\n    w\n      PUT -> C\n",
    "/\r\n  GET A\r\n\r\n    [q:T]\r\n  get -> b::B\r\n\r\n  s\r\n    Post C\r\n",
    "/\n  GET A\n",
];

pub const ODD: &[&str] = &["é", "名", "\u{a0}", "\u{85}", "\u{2028}", "\u{feff}", "𝒳", "\u{301}", "\u{3000}", "\u{661}"];

const TAILS: &[&str] = &["\n", "  ", "\t\n", "x", "x\n", "  x\n", "    GET y\n", " \n", "/\n", "  GET Z\n", "      GET Z\n", "  [z: Z]\n", "   \n\n", "\r", "\u{0}"];

/// Some position in the text, on a character boundary.
fn place(t: &[u8]) -> usize {
    let n = t.len() as u32 + 1;
    let p = if n > 256 { any_of(n as usize) } else if n > 200 { sym::choose(2) as usize * 128 + sym::choose(128) as usize } else { sym::choose(n) as usize };
    if p >= n as usize || (p < t.len() && t[p] & 0xc0 == 0x80) {
        sym::end();
    }
    p
}

/// Any number below `n`.
fn any_of(n: usize) -> usize {
    if n > 250 {
        let k = sym::choose(n as u32 / 250 + 1) as usize * 250 + sym::choose(250) as usize;
        if k >= n {
            sym::end();
        }
        return k;
    }
    sym::choose(n as u32) as usize
}

fn lines(t: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut l = vec![];
    for b in t {
        l.push(*b);
        if *b == b'\n' {
            v.push(std::mem::take(&mut l));
        }
    }
    if !l.is_empty() {
        v.push(l);
    }
    v
}

/// Bytes anywhere: `del` of them go, up to `ins` symbolic ones come.
pub fn bytes(t: &mut Vec<u8>, ins: usize) {
    let p = place(t);
    let del = sym::choose(3) as usize;
    let n = sym::choose(ins as u32 + 1) as usize;
    if p + del > t.len() {
        sym::end();
    }
    if p + del < t.len() && t[p + del] & 0xc0 == 0x80 {
        sym::end();
    }
    let mut b = vec![0u8; n];
    sym::bytes(&mut b);
    let mut ok = true;
    for x in &b {
        ok &= *x < 0x80;
    }
    sym::assume(ok);
    t.splice(p..p + del, b);
}

/// A character outside ASCII anywhere.
pub fn odd(t: &mut Vec<u8>) {
    let p = place(t);
    let s = ODD[sym::choose(ODD.len() as u32) as usize];
    let del = sym::choose(2) as usize;
    if p + del > t.len() {
        sym::end();
    }
    t.splice(p..p + del, s.bytes());
}

/// Whole lines moved, dropped, repeated, indented differently, or the text cut short.
pub fn line(t: &mut Vec<u8>) {
    let mut ls = lines(t);
    let k = sym::choose(7);
    match k {
        5 => {
            let p = place(t);
            t.truncate(p);
            return;
        }
        6 => {
            t.extend_from_slice(TAILS[sym::choose(TAILS.len() as u32) as usize].as_bytes());
            return;
        }
        _ => {}
    }
    let i = any_of(ls.len());
    match k {
        0 => {
            ls.remove(i);
        }
        1 => {
            let l = ls[i].clone();
            let j = any_of(ls.len() + 1);
            ls.insert(j, l);
        }
        2 => {
            let l = ls.remove(i);
            let j = any_of(ls.len() + 1);
            ls.insert(j, l);
        }
        3 => {
            let mut from = 0;
            while ls[i][from] == b' ' {
                from += 1;
            }
            let n = sym::choose(12) as usize;
            ls[i].splice(0..from, std::iter::repeat(b' ').take(n));
        }
        _ => {
            if ls[i][0] == b' ' {
                ls[i][0] = b'\t';
            } else {
                ls[i].insert(0, b'\t');
            }
        }
    }
    *t = ls.concat();
}

/// One of the files with `n` edits.
pub fn edited(files: usize, n: u32, ins: usize) -> String {
    let mut t = FILES[sym::choose(files as u32) as usize].as_bytes().to_vec();
    for _ in 0..n {
        match sym::choose(3) {
            0 => bytes(&mut t, ins),
            1 => odd(&mut t),
            _ => line(&mut t),
        }
    }
    match String::from_utf8(t) {
        Ok(s) => s,
        Err(_) => sym::end(),
    }
}

pub fn edited_big(size: usize) -> String {
    let mut t = crate::big::any(size, false).stringify().into_bytes();
    if sym::choose(2) == 0 {
        line(&mut t);
    } else {
        // one byte more or other at the end of any line
        let mut ls = lines(&t);
        let i = any_of(ls.len());
        let n = ls[i].len() - 1;
        let b = sym::u8();
        sym::assume(b < 0x80);
        if sym::choose(2) == 0 {
            ls[i].insert(n, b);
        } else if n > 0 {
            ls[i][n - 1] = b;
        } else {
            sym::end();
        }
        t = ls.concat();
    }
    match String::from_utf8(t) {
        Ok(s) => s,
        Err(_) => sym::end(),
    }
}

/// `before`, then up to `n` symbolic bytes, then `after`.
pub fn hole(n: usize) -> String {
    const AROUND: &[(&str, &str)] = &[
        ("", ""),
        ("", "/\n  GET A\n"),
        ("/\n", ""),
        ("/\n", "GET A\n"),
        ("/\n  GET A", "\n"),
        ("/\n  GET A\n", "\n"),
        ("/\n  a\n    GET A\n", "GET B\n"),
        ("/\n  ", "x\n    GET A\n"),
        ("/\n  {", "}\n    GET A\n"),
        ("/\n  [p:", "\n  GET A\n"),
        ("/\n  GET ", "A\n"),
        ("/\n  ", " A\n"),
    ];
    let (a, z) = AROUND[sym::choose(AROUND.len() as u32) as usize];
    let k = sym::choose(n as u32 + 1) as usize;
    let mut b = vec![0u8; k];
    sym::bytes(&mut b);
    let mut ok = true;
    for x in &b {
        ok &= *x < 0x80;
    }
    sym::assume(ok);
    let mut t = a.as_bytes().to_vec();
    t.extend_from_slice(&b);
    t.extend_from_slice(z.as_bytes());
    String::from_utf8(t).unwrap()
}
