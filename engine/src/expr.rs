//! Hash-consed bit-vector expressions (width 1..=128; width 1 doubles as bool).

use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64);
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type E = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum O {
    Const,
    Var,
    Add,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Not,
    Ite,
    ZExt,
    SExt,
    Extract, // b = lo
    Concat,  // a high, b low
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: O,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

pub const MAXV: usize = 512;
pub type VSet = [u64; MAXV / 64];

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}

pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub struct Pool {
    pub n: Vec<Node>,
    pub vs: Vec<VSet>,
    /// structural hash: the same in every pool, unlike the numbering
    hs: Vec<u64>,
    map: FxMap<Node, E>,
    memo_gen: Vec<u32>,
    memo_val: Vec<u128>,
    gen: u32,
}

impl Pool {
    pub fn new() -> Pool {
        let mut p = Pool { n: vec![], vs: vec![], hs: vec![], map: Default::default(), memo_gen: vec![], memo_val: vec![], gen: 0 };
        p.konst(0, 1); // E 0 : false, never used as an overlay byte
        p.konst(1, 1);
        p
    }
    pub fn len(&self) -> usize {
        self.n.len()
    }
    fn mk(&mut self, op: O, w: u32, a: E, b: E, c: E, k: u128) -> E {
        let nd = Node { op, w: w as u8, a, b, c, k };
        if let Some(e) = self.map.get(&nd) {
            return *e;
        }
        let mut vs = [0u64; MAXV / 64];
        match op {
            O::Const => {}
            O::Var => vs[a as usize / 64] |= 1 << (a % 64),
            _ => {
                let n = match op {
                    O::Not | O::ZExt | O::SExt | O::Extract => 1,
                    O::Ite => 3,
                    _ => 2,
                };
                for (i, x) in [a, b, c].iter().enumerate() {
                    if i < n {
                        for j in 0..MAXV / 64 {
                            vs[j] |= self.vs[*x as usize][j];
                        }
                    }
                }
            }
        }
        let h = {
            let mut f = Fx::default();
            f.write_u64(op as u64);
            f.write_u64(w as u64);
            f.write_u64(k as u64);
            f.write_u64((k >> 64) as u64);
            let g = |x: E| self.hs[x as usize];
            match op {
                O::Const => {}
                O::Var => f.write_u64(a as u64),
                O::Not | O::ZExt | O::SExt => f.write_u64(g(a)),
                O::Extract => {
                    f.write_u64(g(a));
                    f.write_u64(b as u64);
                }
                O::Ite => {
                    f.write_u64(g(a));
                    f.write_u64(g(b));
                    f.write_u64(g(c));
                }
                _ => {
                    f.write_u64(g(a));
                    f.write_u64(g(b));
                }
            }
            let x = f.finish();
            x ^ (x >> 29)
        };
        self.hs.push(h);
        let e = self.n.len() as E;
        self.n.push(nd);
        self.vs.push(vs);
        self.map.insert(nd, e);
        e
    }
    fn after(&self, a: E, b: E) -> bool {
        (self.hs[a as usize], a) > (self.hs[b as usize], b)
    }
    /// If `e` is an arithmetic combination of at most `max` truth values, those.
    pub fn leaves(&self, e: E, max: usize) -> Option<Vec<E>> {
        let mut out = vec![];
        let mut fuel = 200;
        if self.leaves_of(e, max, &mut out, &mut fuel) {
            Some(out)
        } else {
            None
        }
    }
    fn leaves_of(&self, e: E, max: usize, out: &mut Vec<E>, fuel: &mut u32) -> bool {
        let n = self.n[e as usize];
        if *fuel == 0 {
            return false;
        }
        *fuel -= 1;
        if n.op == O::Const {
            return true;
        }
        if n.op == O::Var {
            return false;
        }
        if n.w == 1 {
            if !out.contains(&e) {
                out.push(e);
            }
            return out.len() <= max;
        }
        let k = match n.op {
            O::Not | O::ZExt | O::SExt | O::Extract => 1,
            O::Ite => 3,
            _ => 2,
        };
        [n.a, n.b, n.c][..k].iter().all(|x| self.leaves_of(*x, max, out, fuel))
    }
    /// Is the value of `e` fixed once the truth values in `pc` are?
    pub fn fixed_by(&self, e: E, pc: &[E], fuel: &mut u32) -> bool {
        let n = self.n[e as usize];
        match n.op {
            O::Const => return true,
            O::Var => {
                return pc.iter().any(|x| {
                    let q = self.n[*x as usize];
                    q.op == O::Eq && ((q.a == e && self.k(q.b).is_some()) || (q.b == e && self.k(q.a).is_some()))
                })
            }
            _ => {}
        }
        if *fuel == 0 {
            return false;
        }
        *fuel -= 1;
        if n.w == 1 {
            if pc.contains(&e) {
                return true;
            }
            if n.op != O::Not {
                let nd = Node { op: O::Not, w: 1, a: e, b: 0, c: 0, k: 0 };
                if let Some(x) = self.map.get(&nd) {
                    if pc.contains(x) {
                        return true;
                    }
                }
            }
        }
        let k = match n.op {
            O::Not | O::ZExt | O::SExt | O::Extract => 1,
            O::Ite => 3,
            _ => 2,
        };
        [n.a, n.b, n.c][..k].iter().all(|x| self.fixed_by(*x, pc, fuel))
    }
    /// The same expression over other variables (`map` is indexed by the old one).
    pub fn rename(&mut self, e: E, map: &FxMap<u32, u32>, memo: &mut FxMap<E, E>) -> E {
        let n = self.n[e as usize];
        match n.op {
            O::Const => return e,
            O::Var => return self.var(map[&n.a]),
            _ => {}
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let a = self.rename(n.a, map, memo);
        let (b, c) = match n.op {
            O::Not | O::ZExt | O::SExt | O::Extract => (n.b, n.c),
            O::Ite => (self.rename(n.b, map, memo), self.rename(n.c, map, memo)),
            _ => (self.rename(n.b, map, memo), n.c),
        };
        let r = self.mk(n.op, n.w as u32, a, b, c, n.k);
        memo.insert(e, r);
        r
    }
    #[allow(dead_code)]
    pub fn show(&self, e: E) -> String {
        let n = self.n[e as usize];
        match n.op {
            O::Const => format!("{}", n.k),
            O::Var => format!("v{}", n.a),
            O::Not | O::ZExt | O::SExt => format!("({:?}{} {})", n.op, n.w, self.show(n.a)),
            O::Extract => format!("{}[{}+{}]", self.show(n.a), n.b, n.w),
            O::Ite => format!("(ite {} {} {})", self.show(n.a), self.show(n.b), self.show(n.c)),
            _ => format!("({:?} {} {})", n.op, self.show(n.a), self.show(n.b)),
        }
    }
    pub fn konst(&mut self, k: u128, w: u32) -> E {
        self.mk(O::Const, w, 0, 0, 0, k & mask(w))
    }
    pub fn var(&mut self, i: u32) -> E {
        assert!((i as usize) < MAXV, "too many symbolic bytes");
        self.mk(O::Var, 8, i, 0, 0, 0)
    }
    pub fn w(&self, e: E) -> u32 {
        self.n[e as usize].w as u32
    }
    pub fn k(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == O::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn node(&self, e: E) -> Node {
        self.n[e as usize]
    }

    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let n = self.node(a);
        match n.op {
            O::Const => self.konst(!n.k, w),
            O::Not => n.a,
            O::Ult if w == 1 => self.mk(O::Ule, 1, n.b, n.a, 0, 0),
            O::Ule if w == 1 => self.mk(O::Ult, 1, n.b, n.a, 0, 0),
            O::Slt if w == 1 => self.mk(O::Sle, 1, n.b, n.a, 0, 0),
            O::Sle if w == 1 => self.mk(O::Slt, 1, n.b, n.a, 0, 0),
            _ => self.mk(O::Not, w, a, 0, 0, 0),
        }
    }

    fn fold(op: O, w: u32, a: u128, b: u128) -> u128 {
        let m = mask(w);
        let r = match op {
            O::Add => a.wrapping_add(b),
            O::Mul => a.wrapping_mul(b),
            O::UDiv => {
                if b == 0 {
                    m
                } else {
                    a / b
                }
            }
            O::URem => {
                if b == 0 {
                    a
                } else {
                    a % b
                }
            }
            O::SDiv => {
                if b == 0 {
                    if sx(a, w) < 0 {
                        1
                    } else {
                        m
                    }
                } else {
                    sx(a, w).wrapping_div(sx(b, w)) as u128
                }
            }
            O::SRem => {
                if b == 0 {
                    a
                } else {
                    sx(a, w).wrapping_rem(sx(b, w)) as u128
                }
            }
            O::And => a & b,
            O::Or => a | b,
            O::Xor => a ^ b,
            O::Shl => {
                if b >= w as u128 {
                    0
                } else {
                    a << b
                }
            }
            O::LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            O::AShr => {
                let s = if b >= w as u128 { w - 1 } else { b as u32 };
                (sx(a, w) >> s) as u128
            }
            O::Eq => (a == b) as u128,
            O::Ult => (a < b) as u128,
            O::Ule => (a <= b) as u128,
            O::Slt => (sx(a, w) < sx(b, w)) as u128,
            O::Sle => (sx(a, w) <= sx(b, w)) as u128,
            _ => unreachable!(),
        };
        r & m
    }

    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.konst(0, w);
        }
        if let Some(k) = self.k(b) {
            let nk = self.konst(k.wrapping_neg(), w);
            return self.bin(O::Add, a, nk);
        }
        let nb = self.not(b);
        let one = self.konst(1, w);
        let neg = self.bin(O::Add, nb, one);
        self.bin(O::Add, a, neg)
    }

    pub fn bin(&mut self, op: O, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (mut a, mut b) = (a, b);
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) {
            return self.konst(Self::fold(op, w, x, y), w);
        }
        if matches!(op, O::Add | O::Mul | O::And | O::Or | O::Xor) {
            if self.k(a).is_some() || (self.k(b).is_none() && self.after(a, b)) {
                std::mem::swap(&mut a, &mut b);
            }
        }
        let kb = self.k(b);
        let m = mask(w);
        let na = self.node(a);
        let nb = self.node(b);
        match op {
            O::Add => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if na.op == O::Add {
                        if let Some(k2) = self.k(na.b) {
                            let c = self.konst(k.wrapping_add(k2), w);
                            return self.bin(O::Add, na.a, c);
                        }
                    }
                    if w == 1 {
                        return self.not(a);
                    }
                    if na.op == O::Ite && self.k(na.b).is_some() && self.k(na.c).is_some() {
                        let x = self.bin(O::Add, na.b, b);
                        let y = self.bin(O::Add, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                } else if na.op == O::Add && self.k(na.b).is_some() {
                    let s = self.bin(O::Add, na.a, b);
                    return self.bin(O::Add, s, na.b);
                } else if nb.op == O::Add && self.k(nb.b).is_some() {
                    let s = self.bin(O::Add, a, nb.a);
                    return self.bin(O::Add, s, nb.b);
                } else if w == 1 {
                    return self.bin(O::Xor, a, b);
                }
            }
            O::Mul => {
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = self.konst(k.trailing_zeros() as u128, w);
                        return self.bin(O::Shl, a, s);
                    }
                }
                if w == 1 {
                    return self.bin(O::And, a, b);
                }
            }
            O::UDiv => {
                if let Some(k) = kb {
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = self.konst(k.trailing_zeros() as u128, w);
                        return self.bin(O::LShr, a, s);
                    }
                }
            }
            O::URem => {
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.konst(k - 1, w);
                        return self.bin(O::And, a, s);
                    }
                }
            }
            O::And => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == m {
                        return a;
                    }
                    if na.op == O::And {
                        if let Some(k2) = self.k(na.b) {
                            let c = self.konst(k & k2, w);
                            return self.bin(O::And, na.a, c);
                        }
                    }
                    // low mask: zext of extract
                    if (k + 1).is_power_of_two() {
                        let n = k.trailing_ones();
                        let x = self.extract(a, 0, n);
                        return self.zext(x, w);
                    }
                    if na.op == O::ZExt {
                        let iw = self.w(na.a);
                        let kk = self.konst(k, iw);
                        let x = self.bin(O::And, na.a, kk);
                        return self.zext(x, w);
                    }
                    if na.op == O::Concat {
                        let lw = self.w(na.b);
                        let kl = self.konst(k, lw);
                        let kh = self.konst(k >> lw, w - lw);
                        let h = self.bin(O::And, na.a, kh);
                        let l = self.bin(O::And, na.b, kl);
                        return self.concat(h, l);
                    }
                }
                if w == 1 {
                    if na.op == O::Not && na.a == b || nb.op == O::Not && nb.a == a {
                        return 0;
                    }
                }
            }
            O::Or => {
                if a == b || kb == Some(0) {
                    return a;
                }
                if kb == Some(m) {
                    return b;
                }
                if w == 1 {
                    if na.op == O::Not && na.a == b || nb.op == O::Not && nb.a == a {
                        return 1;
                    }
                }
                if w > 1 {
                    if let Some(r) = self.or_pieces(a, b) {
                        return r;
                    }
                }
            }
            O::Xor => {
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return self.not(a);
                    }
                    if na.op == O::ZExt && w > 1 {
                        let iw = self.w(na.a);
                        if k & !mask(iw) == 0 {
                            let kk = self.konst(k, iw);
                            let x = self.bin(O::Xor, na.a, kk);
                            return self.zext(x, w);
                        }
                    }
                }
            }
            O::Shl => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.konst(0, w);
                    }
                    let k = k as u32;
                    let x = self.extract(a, 0, w - k);
                    let z = self.konst(0, k);
                    return self.concat(x, z);
                }
            }
            O::LShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.konst(0, w);
                    }
                    let k = k as u32;
                    let x = self.extract(a, k, w - k);
                    return self.zext(x, w);
                }
            }
            O::AShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    let k = k.min(w as u128 - 1) as u32;
                    let x = self.extract(a, k, w - k);
                    return self.sext(x, w);
                }
            }
            _ => {}
        }
        if matches!(op, O::And | O::Or | O::Xor) && w > 1 {
            if na.op == O::ZExt && nb.op == O::ZExt && self.w(na.a) == self.w(nb.a) {
                let x = self.bin(op, na.a, nb.a);
                return self.zext(x, w);
            }
            if na.op == O::SExt && nb.op == O::SExt && self.w(na.a) == self.w(nb.a) {
                let x = self.bin(op, na.a, nb.a);
                return self.sext(x, w);
            }
        }
        self.mk(op, w, a, b, 0, 0)
    }

    /// Split x as list of (expr, width) pieces low to high when it is built of concat/zext.
    fn pieces(&mut self, x: E, out: &mut Vec<(E, u32)>) {
        let n = self.node(x);
        match n.op {
            O::Concat => {
                self.pieces(n.b, out);
                self.pieces(n.a, out);
            }
            O::ZExt => {
                self.pieces(n.a, out);
                let z = n.w as u32 - self.w(n.a);
                let k = self.konst(0, z);
                out.push((k, z));
            }
            _ => out.push((x, n.w as u32)),
        }
    }

    fn or_pieces(&mut self, a: E, b: E) -> Option<E> {
        let ok = |o: O| matches!(o, O::Concat | O::ZExt);
        if !(ok(self.node(a).op) || ok(self.node(b).op)) {
            return None;
        }
        let mut pa = vec![];
        let mut pb = vec![];
        self.pieces(a, &mut pa);
        self.pieces(b, &mut pb);
        if pa.len() + pb.len() > 40 {
            return None;
        }
        // boundaries
        let mut cuts = vec![0u32];
        for p in [&pa, &pb] {
            let mut o = 0;
            for (_, w) in p.iter() {
                o += w;
                cuts.push(o);
            }
        }
        cuts.sort();
        cuts.dedup();
        let mut res: Vec<E> = vec![];
        // first pass: each segment must have a zero on one side
        for s in cuts.windows(2) {
            let (lo, hi) = (s[0], s[1]);
            let x = self.extract(a, lo, hi - lo);
            let y = self.extract(b, lo, hi - lo);
            if self.k(x) == Some(0) {
                res.push(y)
            } else if self.k(y) == Some(0) {
                res.push(x)
            } else if let (Some(p), Some(q)) = (self.k(x), self.k(y)) {
                let c = self.konst(p | q, hi - lo);
                res.push(c)
            } else {
                return None;
            }
        }
        let mut r = res[0];
        for x in &res[1..] {
            r = self.concat(*x, r);
        }
        Some(r)
    }

    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(O::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(O::Or, a, b)
    }

    pub fn eq(&mut self, a: E, b: E) -> E {
        let (mut a, mut b) = (a, b);
        if a == b {
            return 1;
        }
        if self.k(a).is_some() || (self.k(b).is_none() && self.after(a, b)) {
            std::mem::swap(&mut a, &mut b);
        }
        let w = self.w(a);
        let na = self.node(a);
        if let Some(k) = self.k(b) {
            if let Some(x) = self.k(a) {
                return (x == k) as E;
            }
            if w == 1 {
                return if k == 1 { a } else { self.not(a) };
            }
            match na.op {
                O::ZExt => {
                    let iw = self.w(na.a);
                    if k & !mask(iw) != 0 {
                        return 0;
                    }
                    let c = self.konst(k, iw);
                    return self.eq(na.a, c);
                }
                O::SExt => {
                    let iw = self.w(na.a);
                    let t = k & mask(iw);
                    if (sx(t, iw) as u128) & mask(w) != k {
                        return 0;
                    }
                    let c = self.konst(t, iw);
                    return self.eq(na.a, c);
                }
                O::Concat => {
                    let lw = self.w(na.b);
                    let kl = self.konst(k, lw);
                    let kh = self.konst(k >> lw, w - lw);
                    let x = self.eq(na.a, kh);
                    if x == 0 {
                        return 0;
                    }
                    let y = self.eq(na.b, kl);
                    return self.and(x, y);
                }
                O::Add => {
                    if let Some(k2) = self.k(na.b) {
                        let c = self.konst(k.wrapping_sub(k2), w);
                        return self.eq(na.a, c);
                    }
                }
                O::Xor => {
                    if let Some(k2) = self.k(na.b) {
                        let c = self.konst(k ^ k2, w);
                        return self.eq(na.a, c);
                    }
                    if k == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                O::Not => {
                    let c = self.konst(!k, w);
                    return self.eq(na.a, c);
                }
                O::Ite => {
                    let x = self.k(na.b);
                    let y = self.k(na.c);
                    if x.is_some() || y.is_some() {
                        // distribute
                        let p = self.eq(na.b, b);
                        let q = self.eq(na.c, b);
                        return self.ite(na.a, p, q);
                    }
                }
                O::Or if k == 0 => {
                    let x = self.eq(na.a, b);
                    let y = self.eq(na.b, b);
                    return self.and(x, y);
                }
                O::And => {
                    if let Some(k2) = self.k(na.b) {
                        if k & !k2 != 0 {
                            return 0;
                        }
                        if k2.is_power_of_two() {
                            let bit = self.extract(na.a, k2.trailing_zeros(), 1);
                            return if k == 0 { self.not(bit) } else { bit };
                        }
                    }
                }
                _ => {}
            }
        } else {
            let nb = self.node(b);
            if na.op == O::ZExt && nb.op == O::ZExt && self.w(na.a) == self.w(nb.a) {
                return self.eq(na.a, nb.a);
            }
            if na.op == O::Concat && nb.op == O::Concat && self.w(na.a) == self.w(nb.a) {
                let x = self.eq(na.a, nb.a);
                let y = self.eq(na.b, nb.b);
                return self.and(x, y);
            }
            if na.op == O::Concat || nb.op == O::Concat {
                // compare by bytes when the pieces line up with constants
                let c = if na.op == O::Concat { na } else { nb };
                let o = if na.op == O::Concat { b } else { a };
                let lw = self.w(c.b);
                let hi = self.extract(o, lw, w - lw);
                let lo = self.extract(o, 0, lw);
                let x = self.eq(c.a, hi);
                let y = self.eq(c.b, lo);
                return self.and(x, y);
            }
            if w == 1 {
                let x = self.bin(O::Xor, a, b);
                return self.not(x);
            }
        }
        self.mk(O::Eq, 1, a, b, 0, 0)
    }

    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return 0;
        }
        let w = self.w(a);
        let na = self.node(a);
        let nb = self.node(b);
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) {
            return (x < y) as E;
        }
        if let Some(k) = self.k(b) {
            if k == 0 {
                return 0;
            }
            if k == 1 {
                let z = self.konst(0, w);
                return self.eq(a, z);
            }
            if na.op == O::ZExt {
                let iw = self.w(na.a);
                if k > mask(iw) {
                    return 1;
                }
                let c = self.konst(k, iw);
                return self.ult(na.a, c);
            }
            if k == mask(w) {
                let e = self.eq(a, b);
                return self.not(e);
            }
            if na.op == O::Ite && (self.k(na.b).is_some() || self.k(na.c).is_some()) {
                let p = self.ult(na.b, b);
                let q = self.ult(na.c, b);
                return self.ite(na.a, p, q);
            }
        } else if let Some(k) = self.k(a) {
            if k == mask(w) {
                return 0;
            }
            if k == 0 {
                let e = self.eq(b, a);
                return self.not(e);
            }
            if nb.op == O::ZExt {
                let iw = self.w(nb.a);
                if k >= mask(iw) {
                    return 0;
                }
                let c = self.konst(k, iw);
                return self.ult(c, nb.a);
            }
            if nb.op == O::Ite && (self.k(nb.b).is_some() || self.k(nb.c).is_some()) {
                let p = self.ult(a, nb.b);
                let q = self.ult(a, nb.c);
                return self.ite(nb.a, p, q);
            }
        } else if na.op == O::ZExt && nb.op == O::ZExt && self.w(na.a) == self.w(nb.a) {
            return self.ult(na.a, nb.a);
        }
        self.mk(O::Ult, 1, a, b, 0, 0)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return 0;
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) {
            return (sx(x, w) < sx(y, w)) as E;
        }
        let na = self.node(a);
        let nb = self.node(b);
        // both non-negative by construction
        let nn = |p: &Pool, n: &Node| match n.op {
            O::ZExt => true,
            O::Const => n.k >> (w - 1) == 0,
            O::Concat => p.k(n.a).map_or(false, |k| k >> (p.w(n.a) - 1) == 0),
            _ => false,
        };
        if nn(self, &na) && nn(self, &nb) {
            return self.ult(a, b);
        }
        if let Some(k) = self.k(b) {
            if k == 0 {
                return self.extract(a, w - 1, 1);
            }
            if na.op == O::ZExt && k >> (w - 1) == 1 {
                return 0;
            }
        }
        if let Some(k) = self.k(a) {
            if k == mask(w) {
                let s = self.extract(b, w - 1, 1);
                return self.not(s);
            }
            if nb.op == O::ZExt && k >> (w - 1) == 1 {
                return 1;
            }
        }
        if na.op == O::SExt && self.k(b).is_some() {
            let iw = self.w(na.a);
            let k = self.k(b).unwrap();
            let t = k & mask(iw);
            if (sx(t, iw) as u128) & mask(w) == k {
                let c = self.konst(t, iw);
                return self.slt(na.a, c);
            }
        }
        self.mk(O::Slt, 1, a, b, 0, 0)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let x = self.slt(b, a);
        self.not(x)
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if c == 1 || a == b {
            return a;
        }
        if c == 0 {
            return b;
        }
        let nc = self.node(c);
        if nc.op == O::Not {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.k(a), self.k(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        let nb = self.node(b);
        if nb.op == O::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        let na = self.node(a);
        if na.op == O::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if na.op == O::ZExt && nb.op == O::ZExt && self.w(na.a) == self.w(nb.a) {
            let x = self.ite(c, na.a, nb.a);
            return self.zext(x, w);
        }
        self.mk(O::Ite, w, c, a, b, 0)
    }

    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let n = self.node(a);
        match n.op {
            O::Const => self.konst(n.k, w),
            O::ZExt => self.mk(O::ZExt, w, n.a, 0, 0, 0),
            O::Ite if self.k(n.b).is_some() && self.k(n.c).is_some() && aw > 1 => {
                let x = self.zext(n.b, w);
                let y = self.zext(n.c, w);
                self.ite(n.a, x, y)
            }
            _ => self.mk(O::ZExt, w, a, 0, 0, 0),
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let n = self.node(a);
        match n.op {
            O::Const => self.konst(sx(n.k, aw) as u128, w),
            O::ZExt => self.zext(n.a, w),
            O::SExt => self.mk(O::SExt, w, n.a, 0, 0, 0),
            _ => self.mk(O::SExt, w, a, 0, 0, 0),
        }
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        if lo == 0 && w == aw {
            return a;
        }
        let n = self.node(a);
        match n.op {
            O::Const => self.konst(n.k >> lo, w),
            O::Extract => self.extract(n.a, n.b + lo, w),
            O::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    self.konst(0, w)
                } else if lo + w <= iw {
                    self.extract(n.a, lo, w)
                } else {
                    let x = self.extract(n.a, lo, iw - lo);
                    self.zext(x, w)
                }
            }
            O::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    self.extract(n.a, lo, w)
                } else if lo == 0 {
                    self.sext(n.a, w)
                } else if lo >= iw {
                    let s = self.extract(n.a, iw - 1, 1);
                    self.sext(s, w)
                } else {
                    let x = self.extract(n.a, lo, iw - lo);
                    self.sext(x, w)
                }
            }
            O::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    self.extract(n.b, lo, w)
                } else if lo >= lw {
                    self.extract(n.a, lo - lw, w)
                } else {
                    let l = self.extract(n.b, lo, lw - lo);
                    let h = self.extract(n.a, 0, w - (lw - lo));
                    self.concat(h, l)
                }
            }
            O::And | O::Or | O::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                self.bin(n.op, x, y)
            }
            O::Not => {
                let x = self.extract(n.a, lo, w);
                self.not(x)
            }
            O::Add | O::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                self.bin(n.op, x, y)
            }
            O::Ite => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                self.ite(n.a, x, y)
            }
            _ => self.mk(O::Extract, w, a, lo, 0, 0),
        }
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let hw = self.w(h);
        let lw = self.w(l);
        let nh = self.node(h);
        let nl = self.node(l);
        if nh.op == O::Const {
            if nl.op == O::Const {
                return self.konst(nh.k << lw | nl.k, hw + lw);
            }
            if nh.k == 0 {
                return self.zext(l, hw + lw);
            }
            if nl.op == O::Concat {
                if let Some(k2) = self.k(nl.a) {
                    let w2 = self.w(nl.a);
                    let c = self.konst(nh.k << w2 | k2, hw + w2);
                    return self.concat(c, nl.b);
                }
            }
        }
        if nl.op == O::Const && nh.op == O::Concat {
            if let Some(k2) = self.k(nh.b) {
                let w2 = self.w(nh.b);
                let c = self.konst(k2 << lw | nl.k, lw + w2);
                return self.concat(nh.a, c);
            }
        }
        if nh.op == O::Extract && nl.op == O::Extract && nh.a == nl.a && nh.b == nl.b + lw {
            return self.extract(nh.a, nl.b, hw + lw);
        }
        if nh.op == O::Extract && nh.a == l && nh.b == lw {
            // extract of same base where low part simplified to the base itself cannot happen
        }
        if nl.op == O::Concat && nh.op == O::Extract {
            let n2 = self.node(nl.a);
            if n2.op == O::Extract && n2.a == nh.a && nh.b == n2.b + self.w(nl.a) {
                let m = self.extract(nh.a, n2.b, hw + self.w(nl.a));
                return self.concat(m, nl.b);
            }
        }
        // keep concats right-nested low: (h ++ (m ++ l))
        if nh.op == O::ZExt {
            let iw = self.w(nh.a);
            let _ = iw;
            let x = self.concat(nh.a, l);
            return self.zext(x, hw + lw);
        }
        if nh.op == O::Concat {
            let x = self.concat(nh.b, l);
            return self.concat(nh.a, x);
        }
        self.mk(O::Concat, hw + lw, h, l, 0, 0)
    }

    pub fn new_model(&mut self) {
        self.gen += 1;
    }

    /// Evaluate under a model (bytes by variable index); values memoised until `new_model`.
    pub fn eval(&mut self, e: E, m: &[u8]) -> u128 {
        if self.memo_gen.len() < self.n.len() {
            self.memo_gen.resize(self.n.len() + 1024, 0);
            self.memo_val.resize(self.n.len() + 1024, 0);
        }
        if self.gen == 0 {
            self.gen = 1;
        }
        self.ev(e, m)
    }
    fn ev(&mut self, e: E, m: &[u8]) -> u128 {
        let n = self.n[e as usize];
        match n.op {
            O::Const => return n.k,
            O::Var => return m.get(n.a as usize).cloned().unwrap_or(0) as u128,
            _ => {}
        }
        if self.memo_gen[e as usize] == self.gen {
            return self.memo_val[e as usize];
        }
        let w = n.w as u32;
        let r = match n.op {
            O::Not => !self.ev(n.a, m),
            O::Ite => {
                if self.ev(n.a, m) == 1 {
                    self.ev(n.b, m)
                } else {
                    self.ev(n.c, m)
                }
            }
            O::ZExt => self.ev(n.a, m),
            O::SExt => sx(self.ev(n.a, m), self.w(n.a)) as u128,
            O::Extract => self.ev(n.a, m) >> n.b,
            O::Concat => {
                let lw = self.w(n.b);
                self.ev(n.a, m) << lw | self.ev(n.b, m)
            }
            op => {
                let iw = self.w(n.a);
                let a = self.ev(n.a, m);
                let b = self.ev(n.b, m);
                Self::fold(op, iw, a, b)
            }
        } & mask(w);
        self.memo_gen[e as usize] = self.gen;
        self.memo_val[e as usize] = r;
        r
    }
}
