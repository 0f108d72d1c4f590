//! Parser for the textual LLVM IR that rustc emits (post-LTO), lowered to a compact,
//! pre-decoded instruction form.  Function bodies are decoded on first use.

use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, Arc<Ty>),
    Struct(Arc<Vec<Ty>>, bool),
    Vec(u64, Arc<Ty>),
    Meta,
    Other,
}

fn round_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(..) => {
                let s = self.store_size().max(1);
                s.next_power_of_two()
            }
            _ => 1,
        }
    }
    /// Bytes written by a store of this type.
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    /// Allocation size (array stride).
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta | Ty::Other => 0,
            Ty::Int(_) => round_up(self.store_size(), self.align()),
            Ty::Ptr => 8,
            Ty::Float(w) => round_up(*w as u64 / 8, self.align()),
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for f in fs.iter() {
                    if !packed {
                        o = round_up(o, f.align());
                    }
                    o += f.size();
                }
                if *packed {
                    o
                } else {
                    round_up(o, self.align())
                }
            }
            Ty::Vec(..) => round_up(self.store_size(), self.align()),
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (j, f) in fs.iter().enumerate() {
                    if !packed {
                        o = round_up(o, f.align());
                    }
                    if j == i {
                        return o;
                    }
                    o += f.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_offset of {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(fs, _) => &fs[i],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(fs, _) => fs.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => panic!("count of {:?}", self),
        }
    }
}

/// Constants.
#[derive(Clone, Debug)]
pub enum K {
    Int(u64),
    Wide(u32, u128),
    Agg(Arc<Vec<K>>),
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(u32),
    K(K),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    ZExt,
    SExt,
    Trunc,
    Bit,
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub to: u32,
    /// destination, incoming value, width if an integer of at most 64 bits (else 0)
    pub phis: Vec<(u32, Op, u32)>,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(usize),
    Ind(Op),
    Asm,
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(Bin, u32, u32, Op, Op),
    VBin(Bin, u32, u32, Op, Op),
    ICmp(Pred, u32, u32, Op, Op),
    VICmp(Pred, u32, u32, Op, Op),
    Cast(Cast, u32, u32, u32, Op),
    /// cast between vector types or vector/scalar: kind, from, to
    VCast(Cast, Ty, Ty, u32, Op),
    Select(u32, Op, Op, Op, Ty, bool),
    Alloca(u32, u64, Op),
    Load(u32, Ty, Op),
    Store(Ty, Op, Op),
    Gep(u32, Op, i64, Vec<(i64, Op, u32)>),
    ExtractValue(u32, Op, Vec<u32>),
    InsertValue(u32, Op, Op, Vec<u32>),
    ExtractElem(u32, Op, Op),
    InsertElem(u32, Op, Op, Op),
    Shuffle(u32, Op, Op, Vec<i32>),
    Mov(u32, Op),
    Call {
        dst: Option<u32>,
        callee: Callee,
        args: Vec<(Op, Ty)>,
        ret: Ty,
        normal: Option<Edge>,
    },
    Rmw(u32, RmwOp, Ty, Op, Op),
    CmpXchg(u32, Ty, Op, Op, Op),
    Br(Edge),
    CondBr(Op, Edge, Edge),
    Switch(Op, u32, Edge, Vec<(u64, Edge)>),
    Ret(Option<Op>),
    Unreachable,
    Nop,
    Unsupported(String),
}

#[derive(Clone, Copy, Debug)]
pub enum RmwOp {
    Xchg,
    B(Bin),
    Nand,
    Max,
    Min,
    UMax,
    UMin,
}

pub struct Body {
    pub blocks: Vec<Vec<Ins>>,
    pub nregs: usize,
    pub nparams: usize,
    pub block_names: Vec<String>,
    pub live: std::sync::OnceLock<Vec<Vec<u64>>>,
    pub pure: std::sync::OnceLock<Vec<bool>>,
}

impl Body {
    /// Does the block only compute (no memory, no calls, nothing that can fail)?
    pub fn pure_block(&self, b: u32) -> bool {
        self.pure.get_or_init(|| {
            self.blocks
                .iter()
                .map(|blk| {
                    let n = blk.len();
                    blk.iter().enumerate().all(|(k, i)| {
                        if k + 1 == n {
                            return matches!(i, Ins::Br(_) | Ins::CondBr(..) | Ins::Switch(..));
                        }
                        match i {
                            Ins::Bin(o, w, ..) => *w <= 64 && !matches!(o, Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem),
                            Ins::ICmp(_, w, ..) => *w <= 64,
                            Ins::Cast(_, f, t, ..) => *f <= 64 && *t <= 64,
                            Ins::Select(_, _, _, _, Ty::Int(w), false) => *w <= 64,
                            Ins::Mov(..) | Ins::Nop => true,
                            _ => false,
                        }
                    }) && n > 0
                })
                .collect()
        })[b as usize]
    }

    /// Registers whose value may still be used after entering each block (phis excluded:
    /// those are defined by the edge).
    pub fn live_in(&self) -> &Vec<Vec<u64>> {
        self.live.get_or_init(|| {
            let n = (self.nregs + 63) / 64;
            let nb = self.blocks.len();
            let mut gen = vec![vec![0u64; n]; nb];
            let mut kill = vec![vec![0u64; n]; nb];
            for (b, blk) in self.blocks.iter().enumerate() {
                for i in blk {
                    i.uses(&mut |r| {
                        if kill[b][r as usize / 64] >> (r % 64) & 1 == 0 {
                            gen[b][r as usize / 64] |= 1 << (r % 64);
                        }
                    });
                    if let Some(r) = i.def() {
                        kill[b][r as usize / 64] |= 1 << (r % 64);
                    }
                }
            }
            let mut live = gen.clone();
            let mut change = true;
            while change {
                change = false;
                for b in (0..nb).rev() {
                    let mut out = vec![0u64; n];
                    if let Some(t) = self.blocks[b].last() {
                        t.edges(&mut |e: &Edge| {
                            let mut l = live[e.to as usize].clone();
                            for (d, _, _) in &e.phis {
                                l[*d as usize / 64] &= !(1 << (d % 64));
                            }
                            for (_, o, _) in &e.phis {
                                if let Op::Reg(r) = o {
                                    // a call's own result may be used by the edge's phis
                                    l[*r as usize / 64] |= 1 << (r % 64);
                                }
                            }
                            for k in 0..n {
                                out[k] |= l[k];
                            }
                        });
                    }
                    for k in 0..n {
                        let x = gen[b][k] | (out[k] & !kill[b][k]);
                        if x != live[b][k] {
                            live[b][k] = x;
                            change = true;
                        }
                    }
                }
            }
            live
        })
    }
}

impl Ins {
    pub fn edges(&self, f: &mut dyn FnMut(&Edge)) {
        match self {
            Ins::Br(e) => f(e),
            Ins::CondBr(_, a, b) => {
                f(a);
                f(b)
            }
            Ins::Switch(_, _, d, cs) => {
                f(d);
                for c in cs {
                    f(&c.1)
                }
            }
            Ins::Call { normal: Some(e), .. } => f(e),
            _ => {}
        }
    }

    pub fn def(&self) -> Option<u32> {
        match self {
            Ins::Bin(_, _, d, ..)
            | Ins::VBin(_, _, d, ..)
            | Ins::ICmp(_, _, d, ..)
            | Ins::VICmp(_, _, d, ..)
            | Ins::Cast(_, _, _, d, _)
            | Ins::VCast(_, _, _, d, _)
            | Ins::Select(d, ..)
            | Ins::Alloca(d, ..)
            | Ins::Load(d, ..)
            | Ins::Gep(d, ..)
            | Ins::ExtractValue(d, ..)
            | Ins::InsertValue(d, ..)
            | Ins::ExtractElem(d, ..)
            | Ins::InsertElem(d, ..)
            | Ins::Shuffle(d, ..)
            | Ins::Mov(d, _)
            | Ins::Rmw(d, ..)
            | Ins::CmpXchg(d, ..) => Some(*d),
            Ins::Call { dst, .. } => *dst,
            _ => None,
        }
    }

    /// Registers read by the instruction itself (its edges' phis excluded).
    pub fn uses(&self, f: &mut dyn FnMut(u32)) {
        let mut u = |o: &Op| {
            if let Op::Reg(r) = o {
                f(*r)
            }
        };
        match self {
            Ins::Bin(_, _, _, a, b)
            | Ins::VBin(_, _, _, a, b)
            | Ins::ICmp(_, _, _, a, b)
            | Ins::VICmp(_, _, _, a, b)
            | Ins::Store(_, a, b)
            | Ins::InsertValue(_, a, b, _)
            | Ins::ExtractElem(_, a, b)
            | Ins::Shuffle(_, a, b, _)
            | Ins::Rmw(_, _, _, a, b) => {
                u(a);
                u(b)
            }
            Ins::Cast(_, _, _, _, a)
            | Ins::VCast(_, _, _, _, a)
            | Ins::Alloca(_, _, a)
            | Ins::Load(_, _, a)
            | Ins::ExtractValue(_, a, _)
            | Ins::Mov(_, a)
            | Ins::CondBr(a, _, _)
            | Ins::Switch(a, ..)
            | Ins::Ret(Some(a)) => u(a),
            Ins::Select(_, a, b, c, _, _) | Ins::InsertElem(_, a, b, c) | Ins::CmpXchg(_, _, a, b, c) => {
                u(a);
                u(b);
                u(c)
            }
            Ins::Gep(_, a, _, v) => {
                u(a);
                for (_, o, _) in v {
                    u(o)
                }
            }
            Ins::Call { callee, args, .. } => {
                if let Callee::Ind(o) = callee {
                    u(o)
                }
                for (o, _) in args {
                    u(o)
                }
            }
            Ins::Br(_) | Ins::Ret(None) | Ins::Unreachable | Ins::Nop | Ins::Unsupported(_) => {}
        }
    }
}

pub struct Func {
    pub name: String,
    pub text: Option<(usize, usize)>, // byte range of define ... }
    pub weak: bool,
    pub body: OnceLock<Body>,
}

pub struct GlobalObj {
    pub name: String,
    pub constant: bool,
    pub data: Vec<u8>,
}

pub struct Module {
    pub src: String,
    pub funcs: Vec<Func>,
    pub fmap: HashMap<String, usize>,
    pub globals: Vec<GlobalObj>,
    /// What the loader calls with the arguments: functions listed in `.init_array`.
    pub init: Vec<u64>,
    pub gmap: HashMap<String, u64>, // address
    pub types: HashMap<String, Ty>,
}

pub const FUNC_TAG: u64 = 0x7000_0000;

pub fn func_addr(i: usize) -> u64 {
    (FUNC_TAG + i as u64) << 32
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
    types: &'a HashMap<String, Ty>,
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> P<'a> {
    fn new(s: &'a str, types: &'a HashMap<String, Ty>) -> P<'a> {
        P { s: s.as_bytes(), i: 0, types }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\n' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, t: &str) {
        if !self.eat(t) {
            panic!("expected {:?} at ...{}", t, self.rest());
        }
    }
    fn rest(&self) -> String {
        String::from_utf8_lossy(&self.s[self.i..(self.i + 160).min(self.s.len())]).to_string()
    }
    fn peek_word(&mut self) -> &'a str {
        self.ws();
        let mut j = self.i;
        while j < self.s.len() && is_word(self.s[j]) {
            j += 1;
        }
        std::str::from_utf8(&self.s[self.i..j]).unwrap()
    }
    fn word(&mut self) -> &'a str {
        let w = self.peek_word();
        self.i += w.len();
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    /// name after % or @ (sigil already consumed)
    fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            let mut j = self.i + 1;
            while self.s[j] != b'"' {
                j += 1;
            }
            let n = String::from_utf8_lossy(&self.s[self.i + 1..j]).to_string();
            self.i = j + 1;
            n
        } else {
            let mut j = self.i;
            while j < self.s.len() && is_word(self.s[j]) {
                j += 1;
            }
            let n = String::from_utf8_lossy(&self.s[self.i..j]).to_string();
            self.i = j;
            n
        }
    }
    fn skip_parens(&mut self) {
        self.expect("(");
        let mut d = 1;
        while d > 0 {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn is_type_start(&mut self) -> bool {
        match self.peek() {
            b'[' | b'{' | b'<' | b'%' => true,
            _ => {
                let w = self.peek_word();
                if w == "ptr" || w == "void" || w == "float" || w == "double" || w == "metadata" || w == "half" || w == "fp128" || w == "x86_fp80" {
                    return true;
                }
                let b = w.as_bytes();
                b.len() >= 2 && b[0] == b'i' && b[1..].iter().all(|c| c.is_ascii_digit())
            }
        }
    }
    fn ty(&mut self) -> Ty {
        match self.peek() {
            b'[' => {
                self.expect("[");
                let n: u64 = self.word().parse().unwrap();
                self.expect("x");
                let t = self.ty();
                self.expect("]");
                Ty::Arr(n, Arc::new(t))
            }
            b'<' => {
                self.expect("<");
                if self.peek() == b'{' {
                    self.expect("{");
                    let fs = self.ty_list("}");
                    self.expect(">");
                    Ty::Struct(Arc::new(fs), true)
                } else {
                    let n: u64 = self.word().parse().unwrap();
                    self.expect("x");
                    let t = self.ty();
                    self.expect(">");
                    Ty::Vec(n, Arc::new(t))
                }
            }
            b'{' => {
                self.expect("{");
                let fs = self.ty_list("}");
                Ty::Struct(Arc::new(fs), false)
            }
            b'%' => {
                self.expect("%");
                let n = self.name();
                self.types.get(&n).cloned().unwrap_or(Ty::Other)
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => {
                        if self.eat_word("addrspace") {
                            self.skip_parens();
                        }
                        Ty::Ptr
                    }
                    "float" => Ty::Float(32),
                    "double" => Ty::Float(64),
                    "half" => Ty::Float(16),
                    "fp128" => Ty::Float(128),
                    "x86_fp80" => Ty::Float(128),
                    "metadata" => Ty::Meta,
                    "label" | "token" | "opaque" => Ty::Other,
                    _ => {
                        if let Some(n) = w.strip_prefix('i').and_then(|x| x.parse().ok()) {
                            Ty::Int(n)
                        } else {
                            panic!("type? {:?} at {}", w, self.rest())
                        }
                    }
                }
            }
        }
    }
    fn ty_list(&mut self, close: &str) -> Vec<Ty> {
        let mut v = vec![];
        if self.eat(close) {
            return v;
        }
        loop {
            v.push(self.ty());
            if self.eat(",") {
                continue;
            }
            self.expect(close);
            return v;
        }
    }
    /// skip parameter/return attributes until a type starts
    fn skip_attrs_to_type(&mut self) {
        while !self.is_type_start() {
            self.skip_one_attr();
        }
    }
    fn skip_one_attr(&mut self) {
        if self.peek() == b'"' {
            self.i += 1;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            self.i += 1;
            if self.eat("=") {
                self.skip_one_attr();
            }
            return;
        }
        if self.peek() == b'#' {
            self.i += 1;
            self.word();
            return;
        }
        let w = self.word();
        if w.is_empty() {
            panic!("attr? {}", self.rest());
        }
        if w == "align" || w == "alignstack" || w == "cc" {
            if self.peek() != b'(' {
                self.word();
                return;
            }
        }
        if self.i < self.s.len() && self.s[self.i] == b'(' {
            self.skip_parens();
        }
    }
    fn at_value(&mut self) -> bool {
        match self.peek() {
            b'%' | b'@' | b'<' | b'[' | b'{' | b'-' | b'!' => return true,
            b'0'..=b'9' => return true,
            b'c' => return self.s[self.i..].starts_with(b"c\""),
            _ => {}
        }
        matches!(
            self.peek_word(),
            "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "sub" | "add"
                | "trunc" | "xor" | "splat" | "asm" | "ptrtoaddr" | "none"
        )
    }
}

fn mask128(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}

pub fn kint(w: u32, v: u128) -> K {
    let v = v & mask128(w);
    if w <= 64 {
        K::Int(v as u64)
    } else {
        K::Wide(w, v)
    }
}

pub fn kzero(t: &Ty) -> K {
    match t {
        Ty::Int(w) | Ty::Float(w) => kint(*w, 0),
        Ty::Ptr => K::Int(0),
        Ty::Arr(n, e) | Ty::Vec(n, e) => K::Agg(Arc::new(vec![kzero(e); *n as usize])),
        Ty::Struct(fs, _) => K::Agg(Arc::new(fs.iter().map(kzero).collect())),
        _ => K::Int(0),
    }
}

fn kval(k: &K) -> u128 {
    match k {
        K::Int(v) => *v as u128,
        K::Wide(_, v) => *v,
        _ => panic!("kval"),
    }
}

struct Ctx<'a> {
    gmap: &'a HashMap<String, u64>,
    fmap: &'a HashMap<String, usize>,
}

impl<'a> Ctx<'a> {
    fn addr(&self, n: &str) -> u64 {
        if let Some(a) = self.gmap.get(n) {
            return *a;
        }
        if let Some(i) = self.fmap.get(n) {
            return func_addr(*i);
        }
        panic!("unknown global @{}", n)
    }
}

fn parse_const(p: &mut P, t: &Ty, cx: &Ctx) -> K {
    match p.peek() {
        b'@' => {
            p.expect("@");
            let n = p.name();
            return K::Int(cx.addr(&n));
        }
        b'c' if p.s[p.i..].starts_with(b"c\"") => {
            p.i += 2;
            let mut v = vec![];
            loop {
                let c = p.s[p.i];
                if c == b'"' {
                    p.i += 1;
                    break;
                }
                if c == b'\\' && p.s[p.i + 1] == b'\\' {
                    v.push(K::Int(b'\\' as u64));
                    p.i += 2;
                } else if c == b'\\' {
                    let h = std::str::from_utf8(&p.s[p.i + 1..p.i + 3]).unwrap();
                    v.push(K::Int(u8::from_str_radix(h, 16).unwrap() as u64));
                    p.i += 3;
                } else {
                    v.push(K::Int(c as u64));
                    p.i += 1;
                }
            }
            return K::Agg(Arc::new(v));
        }
        b'[' | b'{' | b'<' => {
            let packed_struct = p.s[p.i..].starts_with(b"<{");
            let close = if packed_struct {
                p.expect("<{");
                "}>"
            } else {
                match p.s[p.i] {
                    b'[' => {
                        p.expect("[");
                        "]"
                    }
                    b'{' => {
                        p.expect("{");
                        "}"
                    }
                    _ => {
                        p.expect("<");
                        ">"
                    }
                }
            };
            let mut v = vec![];
            if p.eat(close) {
                return K::Agg(Arc::new(v));
            }
            loop {
                let et = p.ty();
                v.push(parse_const(p, &et, cx));
                if p.eat(",") {
                    continue;
                }
                p.expect(close);
                break;
            }
            return K::Agg(Arc::new(v));
        }
        _ => {}
    }
    let w = p.word();
    match w {
        "true" => K::Int(1),
        "false" => K::Int(0),
        "null" | "none" => K::Int(0),
        "undef" | "poison" | "zeroinitializer" => kzero(t),
        "splat" => {
            p.expect("(");
            let et = p.ty();
            let k = parse_const(p, &et, cx);
            p.expect(")");
            K::Agg(Arc::new(vec![k; t.count()]))
        }
        "getelementptr" => {
            while p.peek() != b'(' {
                p.skip_one_attr();
            }
            p.expect("(");
            let bt = p.ty();
            p.expect(",");
            p.ty();
            let base = kval(&parse_const(p, &Ty::Ptr, cx)) as u64;
            let mut off: i64 = 0;
            let mut cur = bt.clone();
            let mut first = true;
            while p.eat(",") {
                let it = p.ty();
                let k = kval(&parse_const(p, &it, cx)) as u64;
                let bits = it.bits();
                let idx = if bits < 64 { ((k << (64 - bits)) as i64) >> (64 - bits) } else { k as i64 };
                if first {
                    off += idx * bt.size() as i64;
                    first = false;
                } else {
                    off += cur.field_offset(idx as usize) as i64;
                    cur = cur.elem(idx as usize).clone();
                }
            }
            p.expect(")");
            K::Int(base.wrapping_add(off as u64))
        }
        "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" => {
            p.expect("(");
            let ft = p.ty();
            let k = parse_const(p, &ft, cx);
            if !p.eat_word("to") {
                panic!("cast const {}", p.rest());
            }
            let tt = p.ty();
            p.expect(")");
            kint(tt.bits(), kval(&k))
        }
        "sub" | "add" | "xor" => {
            while p.peek() != b'(' {
                p.skip_one_attr();
            }
            p.expect("(");
            let at = p.ty();
            let a = kval(&parse_const(p, &at, cx));
            p.expect(",");
            let bt = p.ty();
            let b = kval(&parse_const(p, &bt, cx));
            p.expect(")");
            kint(
                at.bits(),
                match w {
                    "sub" => a.wrapping_sub(b),
                    "add" => a.wrapping_add(b),
                    _ => a ^ b,
                },
            )
        }
        _ => {
            if let Ty::Float(fw) = t {
                if let Some(h) = w.strip_prefix("0x") {
                    let v = u128::from_str_radix(h.trim_start_matches(|c: char| c == 'K' || c == 'L' || c == 'H'), 16).unwrap_or(0);
                    if *fw == 32 {
                        return kint(32, (f64::from_bits(v as u64) as f32).to_bits() as u128);
                    }
                    return kint(*fw, v);
                }
                // decimal like 1.000000e+00 ('+' is not a word char)
                let mut s = w.to_string();
                if p.i < p.s.len() && p.s[p.i] == b'+' {
                    p.i += 1;
                    s.push('+');
                    s.push_str(p.word());
                }
                let f: f64 = s.parse().unwrap_or(0.0);
                return if *fw == 32 { kint(32, (f as f32).to_bits() as u128) } else { kint(64, f.to_bits() as u128) };
            }
            if let Ok(v) = w.parse::<i128>() {
                return kint(t.bits(), v as u128);
            }
            if let Ok(v) = w.parse::<u128>() {
                return kint(t.bits(), v);
            }
            panic!("const? {:?} {}", w, p.rest())
        }
    }
}

fn write_const(k: &K, t: &Ty, off: u64, out: &mut [u8]) {
    match t {
        Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
            let v = kval(k);
            for i in 0..t.store_size() {
                out[(off + i) as usize] = (v >> (8 * i)) as u8;
            }
        }
        Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => {
            if let K::Agg(v) = k {
                for (i, e) in v.iter().enumerate() {
                    write_const(e, t.elem(i), off + t.field_offset(i), out);
                }
            } else {
                panic!("agg const")
            }
        }
        _ => {}
    }
}

struct FnDec<'a> {
    p_types: &'a HashMap<String, Ty>,
    cx: Ctx<'a>,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}

impl<'a> FnDec<'a> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn val(&mut self, p: &mut P, t: &Ty) -> Op {
        if p.peek() == b'%' {
            p.expect("%");
            let n = p.name();
            return Op::Reg(self.reg(&n));
        }
        Op::K(parse_const(p, t, &self.cx))
    }
    fn tval(&mut self, p: &mut P) -> (Op, Ty) {
        let t = p.ty();
        while !p.at_value() {
            p.skip_one_attr();
        }
        let v = self.val(p, &t);
        (v, t)
    }
    fn label(&mut self, p: &mut P) -> Edge {
        if !p.eat_word("label") {
            panic!("label? {}", p.rest());
        }
        p.expect("%");
        let n = p.name();
        let b = *self.blocks.get(&n).unwrap_or_else(|| panic!("block {}", n));
        Edge { to: b, phis: vec![] }
    }
}

fn bin_of(w: &str) -> Option<Bin> {
    Some(match w {
        "add" => Bin::Add,
        "sub" => Bin::Sub,
        "mul" => Bin::Mul,
        "udiv" => Bin::UDiv,
        "sdiv" => Bin::SDiv,
        "urem" => Bin::URem,
        "srem" => Bin::SRem,
        "and" => Bin::And,
        "or" => Bin::Or,
        "xor" => Bin::Xor,
        "shl" => Bin::Shl,
        "lshr" => Bin::LShr,
        "ashr" => Bin::AShr,
        _ => return None,
    })
}

impl Module {
    pub fn parse(src: String) -> Module {
        let mut types = HashMap::new();
        let mut funcs: Vec<Func> = vec![];
        let mut fmap = HashMap::new();
        let mut gl: Vec<(String, usize, usize)> = vec![]; // name, body start, end
        let mut aliases: Vec<(String, usize, usize)> = vec![];
        let bytes = src.as_bytes();
        let mut i = 0;
        let n = bytes.len();
        let mut in_fn: Option<(usize, usize)> = None; // start, func idx
        while i < n {
            let e = memchr(b'\n', &bytes[i..]).map(|x| i + x).unwrap_or(n);
            let line = &src[i..e];
            if let Some((st, fi)) = in_fn {
                if line == "}" {
                    funcs[fi].text = Some((st, e));
                    in_fn = None;
                }
            } else if line.starts_with("define ") || line.starts_with("declare ") {
                let empty = HashMap::new();
                let mut p = P::new(line, &empty);
                let k = line.find('@').unwrap();
                // '@' could occur in attributes only inside quotes; names come first after types
                p.i = k + 1;
                let name = p.name();
                let fi = funcs.len();
                funcs.push(Func { name: name.clone(), text: None, weak: line.contains("extern_weak"), body: OnceLock::new() });
                fmap.insert(name, fi);
                if line.starts_with("define ") {
                    in_fn = Some((i, fi));
                }
            } else if line.starts_with('@') {
                let empty = HashMap::new();
                let mut p = P::new(line, &empty);
                p.i = 1;
                let name = p.name();
                if line[p.i..].contains(" alias ") && !line[p.i..].contains(" constant ") && !line[p.i..].contains(" global ") {
                    aliases.push((name, i + p.i, e));
                } else {
                    gl.push((name, i + p.i, e));
                }
            } else if line.starts_with('%') {
                // %name = type ...
                let mut p = P::new(line, &types);
                p.i = 1;
                let name = p.name();
                p.expect("=");
                p.eat_word("type");
                let t = p.ty();
                types.insert(name, t);
            }
            i = e + 1;
        }
        // assign addresses
        let mut gmap = HashMap::new();
        for (idx, (name, s, e)) in gl.iter().enumerate() {
            // an undefined weak symbol resolves to null
            let a = if src[*s..*e].trim_start_matches(" =").starts_with("extern_weak ") { 0 } else { ((idx + 1) as u64) << 32 };
            gmap.insert(name.clone(), a);
        }
        for (name, s, e) in &aliases {
            // alias <ty>, ptr @target
            let t = &src[*s..*e];
            let k = t.rfind('@').expect("alias target");
            let mut p = P::new(t, &types);
            p.i = k + 1;
            let tn = p.name();
            if let Some(f) = fmap.get(&tn).cloned() {
                fmap.insert(name.clone(), f);
            } else if let Some(a) = gmap.get(&tn).cloned() {
                gmap.insert(name.clone(), a);
            }
        }
        let mut globals = vec![];
        let mut init = vec![];
        for (name, s, e) in &gl {
            let t = &src[*s..*e];
            let mut p = P::new(t, &types);
            p.expect("=");
            let mut external = false;
            let constant;
            loop {
                let w = p.peek_word();
                if w == "global" {
                    p.word();
                    constant = false;
                    break;
                }
                if w == "constant" {
                    p.word();
                    constant = true;
                    break;
                }
                if w == "external" || w == "extern_weak" {
                    external = true;
                }
                p.skip_one_attr();
            }
            let ty = p.ty();
            let mut data = vec![0u8; ty.size() as usize];
            if !external {
                let cx = Ctx { gmap: &gmap, fmap: &fmap };
                let k = parse_const(&mut p, &ty, &cx);
                write_const(&k, &ty, 0, &mut data);
                if t.contains(", section \".init_array") {
                    init.extend(data.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
                }
            }
            globals.push(GlobalObj { name: name.clone(), constant, data });
        }
        Module { src, funcs, fmap, globals, init, gmap, types }
    }

    pub fn body(&self, f: usize) -> Option<&Body> {
        let func = &self.funcs[f];
        let (s, e) = func.text?;
        Some(func.body.get_or_init(|| self.decode(&self.src[s..e])))
    }

    fn decode(&self, text: &str) -> Body {
        let mut d = FnDec {
            p_types: &self.types,
            cx: Ctx { gmap: &self.gmap, fmap: &self.fmap },
            regs: HashMap::new(),
            blocks: HashMap::new(),
        };
        let mut lines = text.split('\n');
        let header = lines.next().unwrap();
        // parameters
        let mut p = P::new(header, &self.types);
        let k = header.find('@').unwrap();
        p.i = k + 1;
        p.name();
        p.expect("(");
        let mut np = 0;
        let mut unnamed = 0;
        if !p.eat(")") {
            loop {
                if p.eat("...") {
                    p.expect(")");
                    break;
                }
                p.ty();
                loop {
                    match p.peek() {
                        b'%' => {
                            p.expect("%");
                            let n = p.name();
                            d.reg(&n);
                            if n.parse::<u32>().is_ok() {
                                unnamed += 1;
                            }
                            break;
                        }
                        b',' | b')' => {
                            d.reg(&unnamed.to_string());
                            unnamed += 1;
                            break;
                        }
                        _ => p.skip_one_attr(),
                    }
                }
                np += 1;
                if p.eat(",") {
                    continue;
                }
                p.expect(")");
                break;
            }
        }
        // gather blocks of instruction strings
        let mut blocks: Vec<(String, Vec<String>)> = vec![];
        for line in lines {
            let lb = line.as_bytes();
            if lb.is_empty() || lb[0] == b';' || line == "}" {
                continue;
            }
            if lb[0] != b' ' {
                // label
                let name = if lb[0] == b'"' {
                    let e = line[1..].find('"').unwrap();
                    line[1..1 + e].to_string()
                } else {
                    line[..line.find(':').unwrap_or_else(|| panic!("label? {:?}", line))].to_string()
                };
                blocks.push((name, vec![]));
                continue;
            }
            if line.trim_start().starts_with("#dbg_") {
                continue;
            }
            if blocks.is_empty() {
                blocks.push((unnamed.to_string(), vec![]));
            }
            let cont = lb.len() > 2 && (lb[2] == b' ' || lb[2] == b']');
            let v = &mut blocks.last_mut().unwrap().1;
            if cont && !v.is_empty() {
                let l = v.last_mut().unwrap();
                l.push('\n');
                l.push_str(line);
            } else {
                v.push(line.to_string());
            }
        }
        for (i, (n, _)) in blocks.iter().enumerate() {
            d.blocks.insert(n.clone(), i as u32);
        }
        let mut out: Vec<Vec<Ins>> = vec![];
        // (block, dst, [(op, pred)])
        let mut phis: Vec<(u32, u32, Vec<(Op, u32)>, u32)> = vec![];
        for (bi, (_, ins)) in blocks.iter().enumerate() {
            let mut v = vec![];
            for s in ins {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.ins(&mut d, s, bi as u32, &mut phis)));
                match r {
                    Ok(Some(x)) => v.push(x),
                    Ok(None) => {}
                    Err(_) => {
                        eprintln!("rsym: cannot decode: {}", s);
                        v.push(Ins::Unsupported(s.clone()))
                    }
                }
            }
            out.push(v);
        }
        // attach phis to edges
        for (bi, blk) in out.iter_mut().enumerate() {
            let bi = bi as u32;
            let mut fix = |e: &mut Edge| {
                for (b, dst, inc, w) in phis.iter() {
                    if *b == e.to {
                        if let Some((op, _)) = inc.iter().find(|(_, pb)| *pb == bi) {
                            e.phis.push((*dst, op.clone(), *w));
                        }
                    }
                }
            };
            for i in blk.iter_mut() {
                match i {
                    Ins::Br(e) => fix(e),
                    Ins::CondBr(_, a, b) => {
                        fix(a);
                        fix(b)
                    }
                    Ins::Switch(_, _, dft, cs) => {
                        fix(dft);
                        for c in cs {
                            fix(&mut c.1)
                        }
                    }
                    Ins::Call { normal: Some(e), .. } => fix(e),
                    _ => {}
                }
            }
        }
        Body { blocks: out, nregs: d.regs.len(), nparams: np, block_names: blocks.iter().map(|b| b.0.clone()).collect(), live: Default::default(), pure: Default::default() }
    }

    fn ins(&self, d: &mut FnDec, s: &str, bi: u32, phis: &mut Vec<(u32, u32, Vec<(Op, u32)>, u32)>) -> Option<Ins> {
        let mut p = P::new(s, d.p_types);
        let mut dst: Option<u32> = None;
        if p.peek() == b'%' {
            p.expect("%");
            let n = p.name();
            p.expect("=");
            dst = Some(d.reg(&n));
        }
        let mut w = p.word();
        while w == "tail" || w == "musttail" || w == "notail" {
            w = p.word();
        }
        if let Some(b) = bin_of(w) {
            while !p.is_type_start() {
                p.word();
            }
            let t = p.ty();
            let a = d.val(&mut p, &t);
            p.expect(",");
            let c = d.val(&mut p, &t);
            return Some(match &t {
                Ty::Vec(_, e) => Ins::VBin(b, e.bits(), dst.unwrap(), a, c),
                _ => Ins::Bin(b, t.bits(), dst.unwrap(), a, c),
            });
        }
        Some(match w {
            "icmp" => {
                if p.peek_word() == "samesign" {
                    p.word();
                }
                let pr = match p.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    x => panic!("pred {}", x),
                };
                let t = p.ty();
                let a = d.val(&mut p, &t);
                p.expect(",");
                let c = d.val(&mut p, &t);
                match &t {
                    Ty::Vec(_, e) => Ins::VICmp(pr, e.bits(), dst.unwrap(), a, c),
                    _ => Ins::ICmp(pr, t.bits(), dst.unwrap(), a, c),
                }
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => {
                while !p.is_type_start() {
                    p.word();
                }
                let ft = p.ty();
                let a = d.val(&mut p, &ft);
                if !p.eat_word("to") {
                    panic!("cast")
                }
                let tt = p.ty();
                let k = match w {
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "trunc" => Cast::Trunc,
                    _ => Cast::Bit,
                };
                if matches!(ft, Ty::Vec(..)) || matches!(tt, Ty::Vec(..)) {
                    Ins::VCast(k, ft, tt, dst.unwrap(), a)
                } else {
                    let (fw, tw) = (ft.bits(), tt.bits());
                    let k = if k == Cast::Bit {
                        if fw < tw {
                            Cast::ZExt
                        } else if fw > tw {
                            Cast::Trunc
                        } else {
                            Cast::Bit
                        }
                    } else {
                        k
                    };
                    Ins::Cast(k, fw, tw, dst.unwrap(), a)
                }
            }
            "select" => {
                while !p.is_type_start() {
                    p.word();
                }
                let ct = p.ty();
                let c = d.val(&mut p, &ct);
                p.expect(",");
                let (a, t) = d.tval(&mut p);
                p.expect(",");
                let (b, _) = d.tval(&mut p);
                Ins::Select(dst.unwrap(), c, a, b, t, matches!(ct, Ty::Vec(..)))
            }
            "alloca" => {
                p.eat_word("inalloca");
                let t = p.ty();
                let mut cnt = Op::K(K::Int(1));
                if p.eat(",") && p.is_type_start() {
                    let (v, _) = d.tval(&mut p);
                    cnt = v;
                }
                Ins::Alloca(dst.unwrap(), t.size(), cnt)
            }
            "load" => {
                while matches!(p.peek_word(), "atomic" | "volatile") {
                    p.word();
                }
                let t = p.ty();
                p.expect(",");
                let (a, _) = d.tval(&mut p);
                Ins::Load(dst.unwrap(), t, a)
            }
            "store" => {
                while matches!(p.peek_word(), "atomic" | "volatile") {
                    p.word();
                }
                let (v, t) = d.tval(&mut p);
                p.expect(",");
                let (a, _) = d.tval(&mut p);
                Ins::Store(t, v, a)
            }
            "getelementptr" => {
                while !p.is_type_start() {
                    p.skip_one_attr();
                }
                let bt = p.ty();
                p.expect(",");
                let (base, _) = d.tval(&mut p);
                let mut off = 0i64;
                let mut dynv = vec![];
                let mut cur = bt.clone();
                let mut first = true;
                while p.eat(",") {
                    if p.peek() == b'!' {
                        break;
                    }
                    let (ix, it) = d.tval(&mut p);
                    let scale;
                    match (&ix, first) {
                        (Op::K(k), _) => {
                            let v = kval(k) as u64;
                            let b = it.bits();
                            let sv = if b < 64 { ((v << (64 - b)) as i64) >> (64 - b) } else { v as i64 };
                            if first {
                                off += sv * bt.size() as i64;
                            } else {
                                off += cur.field_offset(sv as usize) as i64;
                                cur = cur.elem(sv as usize).clone();
                            }
                            first = false;
                            continue;
                        }
                        (_, true) => scale = bt.size() as i64,
                        (_, false) => {
                            let e = cur.elem(0).clone();
                            scale = e.size() as i64;
                            cur = e;
                        }
                    }
                    first = false;
                    dynv.push((scale, ix, it.bits()));
                }
                Ins::Gep(dst.unwrap(), base, off, dynv)
            }
            "extractvalue" => {
                let (a, _) = d.tval(&mut p);
                let mut ix = vec![];
                while p.eat(",") {
                    if p.peek() == b'!' {
                        break;
                    }
                    ix.push(p.word().parse().unwrap());
                }
                Ins::ExtractValue(dst.unwrap(), a, ix)
            }
            "insertvalue" => {
                let (a, _) = d.tval(&mut p);
                p.expect(",");
                let (b, _) = d.tval(&mut p);
                let mut ix = vec![];
                while p.eat(",") {
                    if p.peek() == b'!' {
                        break;
                    }
                    ix.push(p.word().parse().unwrap());
                }
                Ins::InsertValue(dst.unwrap(), a, b, ix)
            }
            "extractelement" => {
                let (a, _) = d.tval(&mut p);
                p.expect(",");
                let (i, _) = d.tval(&mut p);
                Ins::ExtractElem(dst.unwrap(), a, i)
            }
            "insertelement" => {
                let (a, _) = d.tval(&mut p);
                p.expect(",");
                let (v, _) = d.tval(&mut p);
                p.expect(",");
                let (i, _) = d.tval(&mut p);
                Ins::InsertElem(dst.unwrap(), a, v, i)
            }
            "shufflevector" => {
                let (a, _) = d.tval(&mut p);
                p.expect(",");
                let (b, _) = d.tval(&mut p);
                p.expect(",");
                let mt = p.ty();
                let k = parse_const(&mut p, &mt, &d.cx);
                let m = match k {
                    K::Agg(v) => v.iter().map(|x| kval(x) as i32).collect(),
                    _ => panic!(),
                };
                Ins::Shuffle(dst.unwrap(), a, b, m)
            }
            "freeze" => {
                let (a, _) = d.tval(&mut p);
                Ins::Mov(dst.unwrap(), a)
            }
            "fence" => Ins::Nop,
            "landingpad" => Ins::Unreachable,
            "resume" => Ins::Unreachable,
            "phi" => {
                while !p.is_type_start() {
                    p.word();
                }
                let t = p.ty();
                let mut inc = vec![];
                loop {
                    p.expect("[");
                    let v = d.val(&mut p, &t);
                    p.expect(",");
                    p.expect("%");
                    let n = p.name();
                    let b = *d.blocks.get(&n).unwrap_or_else(|| panic!("phi block {}", n));
                    inc.push((v, b));
                    p.expect("]");
                    if p.eat(",") {
                        if p.peek() == b'!' {
                            break;
                        }
                        continue;
                    }
                    break;
                }
                let w = match t {
                    Ty::Int(w) if w <= 64 => w,
                    _ => 0,
                };
                phis.push((bi, dst.unwrap(), inc, w));
                return None;
            }
            "br" => {
                if p.peek_word() == "label" {
                    Ins::Br(d.label(&mut p))
                } else {
                    let (c, _) = d.tval(&mut p);
                    p.expect(",");
                    let a = d.label(&mut p);
                    p.expect(",");
                    let b = d.label(&mut p);
                    Ins::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (v, t) = d.tval(&mut p);
                p.expect(",");
                let dft = d.label(&mut p);
                p.expect("[");
                let mut cs = vec![];
                while !p.eat("]") {
                    let ct = p.ty();
                    let k = kval(&parse_const(&mut p, &ct, &d.cx)) as u64;
                    p.expect(",");
                    cs.push((k, d.label(&mut p)));
                }
                Ins::Switch(v, t.bits(), dft, cs)
            }
            "ret" => {
                let t = p.ty();
                if t == Ty::Void {
                    Ins::Ret(None)
                } else {
                    while !p.at_value() {
                        p.skip_one_attr();
                    }
                    let v = d.val(&mut p, &t);
                    Ins::Ret(Some(v))
                }
            }
            "unreachable" => Ins::Unreachable,
            "atomicrmw" => {
                p.eat_word("volatile");
                let op = match p.word() {
                    "xchg" => RmwOp::Xchg,
                    "nand" => RmwOp::Nand,
                    "max" => RmwOp::Max,
                    "min" => RmwOp::Min,
                    "umax" => RmwOp::UMax,
                    "umin" => RmwOp::UMin,
                    x => RmwOp::B(bin_of(x).unwrap()),
                };
                let (a, _) = d.tval(&mut p);
                p.expect(",");
                let (v, t) = d.tval(&mut p);
                Ins::Rmw(dst.unwrap(), op, t, a, v)
            }
            "cmpxchg" => {
                while matches!(p.peek_word(), "weak" | "volatile") {
                    p.word();
                }
                let (a, _) = d.tval(&mut p);
                p.expect(",");
                let (c, t) = d.tval(&mut p);
                p.expect(",");
                let (n, _) = d.tval(&mut p);
                Ins::CmpXchg(dst.unwrap(), t, a, c, n)
            }
            "call" | "invoke" => {
                // calling convention, return attributes
                p.skip_attrs_to_type();
                let ret = p.ty();
                if p.peek() == b'(' {
                    p.skip_parens();
                }
                let callee;
                match p.peek() {
                    b'@' => {
                        p.expect("@");
                        let n = p.name();
                        callee = match d.cx.fmap.get(&n) {
                            Some(i) => Callee::Func(*i),
                            None => panic!("callee {}", n),
                        };
                    }
                    b'%' => {
                        p.expect("%");
                        let n = p.name();
                        callee = Callee::Ind(Op::Reg(d.reg(&n)));
                    }
                    _ => {
                        if p.peek_word() == "asm" {
                            p.word();
                            while p.peek() != b'(' {
                                p.skip_one_attr();
                                p.eat(",");
                            }
                            callee = Callee::Asm;
                        } else {
                            callee = Callee::Ind(Op::K(parse_const(&mut p, &Ty::Ptr, &d.cx)));
                        }
                    }
                }
                p.expect("(");
                let mut args = vec![];
                if !p.eat(")") {
                    loop {
                        let t = p.ty();
                        if t == Ty::Meta {
                            let mut depth = 0;
                            p.ws();
                            loop {
                                match p.s[p.i] {
                                    b'(' => depth += 1,
                                    b')' if depth == 0 => break,
                                    b')' => depth -= 1,
                                    b',' if depth == 0 => break,
                                    _ => {}
                                }
                                p.i += 1;
                            }
                            args.push((Op::K(K::Int(0)), t));
                        } else {
                            while !p.at_value() {
                                p.skip_one_attr();
                            }
                            let v = d.val(&mut p, &t);
                            args.push((v, t));
                        }
                        if p.eat(",") {
                            continue;
                        }
                        p.expect(")");
                        break;
                    }
                }
                let mut normal = None;
                if w == "invoke" {
                    let rest = &s[p.i..];
                    let k = rest.rfind(" to label ").expect("invoke to");
                    p.i += k + 4;
                    normal = Some(d.label(&mut p));
                }
                if let Callee::Asm = callee {
                    if ret != Ty::Void {
                        return Some(Ins::Unsupported(s.to_string()));
                    }
                    return Some(Ins::Nop);
                }
                if let Callee::Func(fi) = callee {
                    let nm = &self.funcs[fi].name;
                    if nm.starts_with("llvm.lifetime")
                        || nm.starts_with("llvm.dbg")
                        || nm.starts_with("llvm.assume")
                        || nm.starts_with("llvm.experimental.noalias")
                        || nm.starts_with("llvm.donothing")
                        || nm.starts_with("llvm.prefetch")
                        || nm.starts_with("llvm.x86.sse2.pause")
                        || nm.starts_with("llvm.invariant")
                    {
                        return None;
                    }
                }
                Ins::Call { dst, callee, args, ret, normal }
            }
            _ => Ins::Unsupported(s.to_string()),
        })
    }
}

fn memchr(c: u8, s: &[u8]) -> Option<usize> {
    s.iter().position(|x| *x == c)
}
