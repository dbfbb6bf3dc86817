//! Reader for textual LLVM IR (whole program, opaque pointers). Functions are decoded on first use.
use crate::expr::*;
use crate::val::*;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Debug, PartialEq)]
pub enum Ty { Void, Int(u16), Ptr, F32, F64, Arr(u64, T), Struct(Vec<T>, bool), Vec(u32, T), Other }
pub type T = Rc<Ty>;
fn up(x: u64, a: u64) -> u64 { (x + a - 1) / a * a }
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => (((*w as u64 + 7) / 8).next_power_of_two()).min(16),
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => up((*w as u64 + 7) / 8, self.align()),
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, p) => { let mut o = 0; for t in f { if !*p { o = up(o, t.align()) } o += t.size(); } if *p { o } else { up(o, self.align()) } }
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            _ => 0,
        }
    }
    pub fn bits(&self) -> u16 { match self { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, _ => 0 } }
    pub fn field(&self, i: u64) -> (u64, T) {
        match self {
            Ty::Arr(_, t) => (i * t.size(), t.clone()),
            Ty::Vec(_, t) => (i * t.size(), t.clone()),
            Ty::Struct(f, p) => { let mut o = 0; for (k, t) in f.iter().enumerate() { if !*p { o = up(o, t.align()) } if k as u64 == i { return (o, t.clone()); } o += t.size(); } panic!("field") }
            t => panic!("field of {:?}", t),
        }
    }
    pub fn nfields(&self) -> u64 { match self { Ty::Arr(n, _) => *n, Ty::Vec(n, _) => *n as u64, Ty::Struct(f, _) => f.len() as u64, _ => 0 } }
    pub fn is_agg(&self) -> bool { matches!(self, Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..)) }
}
pub fn zero_val(t: &Ty) -> Val {
    if t.is_agg() { Val::Agg(Rc::new((0..t.nfields()).map(|i| zero_val(&t.field(i).1)).collect())) }
    else if t.bits() > 64 { Val::E(konst(0, t.bits())) } else { Val::C(0) }
}

pub type O = u32; // operand: register index, or CONST | const index
pub const CONST: u32 = 0x8000_0000;
pub const NONE: u32 = u32::MAX;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CastK { Trunc, ZExt, SExt, Bitcast, PtrInt, FpToUi, FpToSi, UiToFp, SiToFp, FpExt, FpTrunc }
#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Ind(O), Asm(Rc<String>) }
#[derive(Debug)]
pub struct CallI { pub dst: u32, pub ret: T, pub callee: Callee, pub args: Vec<O>, pub tys: Vec<T>, pub normal: u32 }
#[derive(Debug)]
pub enum I {
    Bin(Op, u16, u32, O, O),              // op width dst a b
    VBin(Op, u16, u32, O, O),
    FBin(u8, u16, u32, O, O),             // + - * / %
    FNeg(u16, u32, O),
    FCmp(String, u16, u32, O, O),
    ICmp(Pred, u16, u32, O, O),
    VICmp(Pred, u16, u32, O, O),
    Cast(CastK, T, T, u32, O),
    Select(T, u32, O, O, O),
    Load(T, u32, O),
    Store(T, O, O),
    Alloca(u32, u64, O),
    Gep(u32, O, u64, Vec<(O, u64, u16)>),  // dst base constoff (idx, scale, idxwidth)
    ExtractV(u32, O, Vec<u64>),
    InsertV(u32, O, O, Vec<u64>),
    ExtractE(u32, O, O),
    InsertE(u32, O, O, O),
    Shuffle(u32, O, O, Vec<u32>),
    Rmw(String, T, u32, O, O),
    CmpXchg(T, u32, O, O, O),
    Copy(u32, O),
    Call(Box<CallI>),
    Nop,
    // terminators
    Br(u32),
    CondBr(O, u32, u32),
    Switch(u16, O, u32, Vec<(u128, u32)>),
    Ret(O),
    Unreachable,
    Bad(String),
}
#[derive(Debug)]
pub struct Phi { pub dst: u32, pub inc: Vec<(u32, O)> }
#[derive(Debug)]
pub struct Block { pub phis: Vec<Phi>, pub ins: Vec<I>, pub dbg: Vec<u32>, pub hit: Cell<bool> }
pub struct Func { pub name: &'static str, pub id: u32, pub params: u32, pub nregs: u32, pub consts: Vec<Val>, pub blocks: Vec<Block>, pub dbg: u32 }

pub struct GInfo { pub name: &'static str, pub src: &'static str, pub konst: bool, pub ty: T, pub init_at: usize, pub external: bool }
pub struct FInfo { pub name: &'static str, pub def: Option<(usize, usize)>, pub body: RefCell<Option<&'static Func>> }

pub struct Module {
    pub text: &'static str,
    pub types: RefCell<HashMap<&'static str, (&'static str, Option<T>)>>,
    pub fidx: HashMap<&'static str, u32>,
    pub fns: Vec<FInfo>,
    pub gidx: HashMap<&'static str, u32>,
    pub globals: Vec<GInfo>,
    pub meta: HashMap<u32, &'static str>,
}
pub const CODE_IDX: u64 = 1;
pub const G_BASE: u64 = 16;
pub fn fn_addr(i: u32) -> u64 { (CODE_IDX << 32) | (i as u64 * 16) }
pub fn g_addr(i: u32) -> u64 { (G_BASE + i as u64) << 32 }

struct Cur<'m> { s: &'static str, i: usize, m: &'m Module }
enum Raw { Reg(&'static str), K(Val) }

impl<'m> Cur<'m> {
    fn b(&self) -> &'static [u8] { self.s.as_bytes() }
    fn ws(&mut self) { let b = self.b(); while self.i < b.len() && (b[self.i] == b' ' || b[self.i] == b'\t' || b[self.i] == b'\n') { self.i += 1 } }
    fn peek(&mut self) -> u8 { self.ws(); *self.b().get(self.i).unwrap_or(&0) }
    fn eat(&mut self, t: &str) -> bool { self.ws(); if self.s[self.i..].starts_with(t) { self.i += t.len(); true } else { false } }
    fn expect(&mut self, t: &str) { if !self.eat(t) { panic!("expected {:?} at {:?} in {:?}", t, &self.s[self.i..(self.i + 60).min(self.s.len())], &self.s[..self.s.len().min(300)]) } }
    fn peek_word(&mut self) -> &'static str { self.ws(); let b = self.b(); let mut j = self.i; while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_' || b[j] == b'.' || b[j] == b'$') { j += 1 } &self.s[self.i..j] }
    fn word(&mut self) -> &'static str { let w = self.peek_word(); self.i += w.len(); w }
    fn eat_word(&mut self, w: &str) -> bool { if self.peek_word() == w { self.i += w.len(); true } else { false } }
    fn name(&mut self) -> &'static str {
        // after sigil
        let b = self.b();
        if b[self.i] == b'"' { let st = self.i + 1; let mut j = st; while b[j] != b'"' { j += 1 } self.i = j + 1; &self.s[st..j] }
        else { let st = self.i; let mut j = st; while j < b.len() && (b[j].is_ascii_alphanumeric() || matches!(b[j], b'_' | b'.' | b'$' | b'-')) { j += 1 } self.i = j; &self.s[st..j] }
    }
    fn skip_parens(&mut self) {
        self.ws(); let b = self.b(); let mut d = 0; 
        loop { match b[self.i] { b'(' => d += 1, b')' => d -= 1, b'"' => { self.i += 1; while b[self.i] != b'"' { self.i += 1 } } _ => {} } self.i += 1; if d == 0 { return; } }
    }
    fn int(&mut self) -> i128 { self.ws(); let b = self.b(); let st = self.i; if b[self.i] == b'-' { self.i += 1 } while self.i < b.len() && b[self.i].is_ascii_digit() { self.i += 1 } let s = &self.s[st..self.i]; s.parse::<i128>().unwrap_or_else(|_| s.parse::<u128>().map(|x| x as i128).unwrap_or_else(|_| panic!("int {:?} in {}", s, &self.s[st.saturating_sub(100)..]))) }
    fn ty(&mut self) -> T {
        match self.peek() {
            b'[' => { self.i += 1; let n = self.int() as u64; self.expect("x"); let t = self.ty(); self.expect("]"); Rc::new(Ty::Arr(n, t)) }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' { let t = self.sbody(true); self.expect(">"); return t; }
                let n = self.int() as u32; self.expect("x"); let t = self.ty(); self.expect(">"); Rc::new(Ty::Vec(n, t))
            }
            b'{' => self.sbody(false),
            b'%' => {
                self.i += 1; let nm = self.name();
                let e = { let t = self.m.types.borrow(); let e = t.get(nm).unwrap_or_else(|| panic!("type {}", nm)); (e.0, e.1.clone()) };
                if let Some(t) = e.1 { return t; }
                let t = Cur { s: e.0, i: 0, m: self.m }.ty();
                self.m.types.borrow_mut().get_mut(nm).unwrap().1 = Some(t.clone());
                t
            }
            _ => {
                let w = self.word();
                Rc::new(match w {
                    "void" => Ty::Void, "ptr" => Ty::Ptr, "float" => Ty::F32, "double" => Ty::F64,
                    "label" | "metadata" | "token" | "opaque" | "half" | "fp128" | "x86_fp80" => Ty::Other,
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {:?} in {}", w, &self.s[..self.s.len().min(200)]))),
                    _ => panic!("type {:?} in {}", w, &self.s[..self.s.len().min(200)]),
                })
            }
        }
    }
    fn sbody(&mut self, packed: bool) -> T {
        self.expect("{"); let mut f = vec![];
        if !self.eat("}") { loop { f.push(self.ty()); if self.eat("}") { break } self.expect(","); } }
        Rc::new(Ty::Struct(f, packed))
    }
    fn attrs(&mut self) {
        // skip parameter attributes before an operand
        loop {
            let c = self.peek();
            if !c.is_ascii_lowercase() { return; }
            let w = self.peek_word();
            match w {
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "splat" | "bitcast" | "add" | "sub" | "xor" | "c" | "trunc" | "none" | "asm" => return,
                "align" => { self.i += 5; if self.peek() == b'(' { self.skip_parens() } else { self.int(); } }
                _ => { self.i += w.len(); if self.b()[self.i] == b'(' { self.skip_parens() } }
            }
        }
    }
    fn opnd(&mut self, t: &T) -> Raw {
        self.attrs();
        if self.peek() == b'%' { self.i += 1; return Raw::Reg(self.name()); }
        Raw::K(self.konst(t))
    }
    fn mkint(v: i128, w: u16) -> Val { if w > 64 { Val::E(konst(v as u128, w)) } else { Val::C((v as u128 & mask(w)) as u64) } }
    fn konst(&mut self, t: &T) -> Val {
        match self.peek() {
            b'@' => { self.i += 1; let nm = self.name(); Val::C(self.m.sym_addr(nm).unwrap_or_else(|| panic!("symbol {}", nm))) }
            b'-' | b'+' | b'0'..=b'9' => {
                match &**t {
                    Ty::F64 | Ty::F32 => {
                        let b = self.b(); let st = self.i; while self.i < b.len() && (b[self.i].is_ascii_alphanumeric() || matches!(b[self.i], b'.' | b'+' | b'-')) { self.i += 1 }
                        let s = &self.s[st..self.i];
                        let d = if let Some(h) = s.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else { s.parse::<f64>().unwrap() };
                        Val::C(if **t == Ty::F64 { d.to_bits() } else { (d as f32).to_bits() as u64 })
                    }
                    _ => { let v = self.int(); Self::mkint(v, t.bits()) }
                }
            }
            b'{' => { self.i += 1; self.list(b'}') }
            b'[' => { self.i += 1; self.list(b']') }
            b'<' => { self.i += 1; if self.eat("{") { let v = self.list(b'}'); self.expect(">"); v } else { self.list(b'>') } }
            b'c' if self.b()[self.i + 1] == b'"' => {
                self.i += 2; let b = self.b(); let mut v = vec![];
                while b[self.i] != b'"' { if b[self.i] == b'\\' && b[self.i + 1] == b'\\' { v.push(Val::C(92)); self.i += 2 } else if b[self.i] == b'\\' { v.push(Val::C(u64::from_str_radix(&self.s[self.i + 1..self.i + 3], 16).unwrap())); self.i += 3 } else { v.push(Val::C(b[self.i] as u64)); self.i += 1 } }
                self.i += 1; Val::Agg(Rc::new(v))
            }
            _ => {
                let w = self.word();
                match w {
                    "true" => Val::C(1), "false" | "null" | "none" => Val::C(0),
                    "undef" | "poison" | "zeroinitializer" => zero_val(t),
                    "splat" => { self.expect("("); let et = self.ty(); let v = self.konst(&et); self.expect(")"); Val::Agg(Rc::new(vec![v; t.nfields() as usize])) }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" => { self.expect("("); let st = self.ty(); let v = self.konst(&st); self.expect("to"); let dt = self.ty(); self.expect(")"); match v { Val::C(x) if dt.bits() < 64 && dt.bits() > 0 => Val::C(x & mask(dt.bits()) as u64), v => v } }
                    "add" | "sub" | "xor" => {
                        while self.peek() != b'(' { self.word(); } self.expect("(");
                        let ta = self.ty(); let a = self.konst(&ta); self.expect(","); let tb = self.ty(); let b = self.konst(&tb); self.expect(")");
                        let (a, b) = (a.c(), b.c()); let m = mask(ta.bits()) as u64;
                        Val::C(match w { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), _ => a ^ b } & m)
                    }
                    "getelementptr" => {
                        while self.peek() != b'(' { self.word(); if self.peek() == b'(' && self.s[..self.i].ends_with("inrange") { self.skip_parens() } }
                        self.expect("("); let st = self.ty(); self.expect(","); let pt = self.ty(); let base = self.konst(&pt).c();
                        let mut off = base; let mut cur = st; let mut first = true;
                        while self.eat(",") { let it = self.ty(); let ix = self.konst(&it).c(); let ix = sx(ix as u128, it.bits()) as i64;
                            if first { off = off.wrapping_add((ix as u64).wrapping_mul(cur.size())); first = false } else { let (o, nt) = cur.field(ix as u64); off = off.wrapping_add(o); cur = nt; } }
                        self.expect(")"); Val::C(off)
                    }
                    _ => panic!("const {:?} in {}", w, &self.s[self.i.saturating_sub(80)..(self.i + 40).min(self.s.len())]),
                }
            }
        }
    }
    fn list(&mut self, end: u8) -> Val {
        let mut v = vec![];
        if self.peek() == end { self.i += 1; return Val::Agg(Rc::new(v)); }
        loop { let t = self.ty(); v.push(self.konst(&t)); if self.peek() == end { self.i += 1; break } self.expect(","); }
        Val::Agg(Rc::new(v))
    }
}

impl Module {
    pub fn load(path: &str) -> &'static Module {
        let text: &'static str = Box::leak(std::fs::read_to_string(path).unwrap().into_boxed_str());
        let mut m = Module { text, types: Default::default(), fidx: Default::default(), fns: vec![], gidx: Default::default(), globals: vec![], meta: Default::default() };
        let mut pos = 0;
        let mut gl: Vec<&'static str> = vec![];
        let mut aliases: Vec<&'static str> = vec![];
        let mut in_fn: Option<(u32, usize)> = None;
        for line in text.split_inclusive('\n') {
            let st = pos; pos += line.len();
            let b = line.as_bytes();
            if let Some((f, s)) = in_fn { if b[0] == b'}' { m.fns[f as usize].def = Some((s, pos)); in_fn = None; } continue; }
            match b[0] {
                b'd' if line.starts_with("define ") || line.starts_with("declare ") => {
                    let at = line.find('@').unwrap() + 1;
                    let nm = if b[at] == b'"' { let e = line[at + 1..].find('"').unwrap(); &line[at + 1..at + 1 + e] } else { let e = line[at..].find('(').unwrap(); &line[at..at + e] };
                    let id = m.fns.len() as u32;
                    m.fns.push(FInfo { name: nm, def: None, body: RefCell::new(None) });
                    m.fidx.insert(nm, id);
                    if line.starts_with("define ") { in_fn = Some((id, st)); }
                }
                b'@' => { if line.contains(" alias ") && !line.contains(" constant ") && !line.contains(" global ") { aliases.push(line) } else { gl.push(line) } }
                b'%' => { let e = line.find(" = type ").unwrap(); let nm = line[1..e].trim_matches('"'); m.types.borrow_mut().insert(nm, (line[e + 8..].trim(), None)); }
                b'!' if b[1].is_ascii_digit() => { let e = line.find(" = ").unwrap(); m.meta.insert(line[1..e].parse().unwrap(), line[e + 3..].trim_end()); }
                _ => {}
            }
        }
        for line in &gl { let mut c = Cur { s: line, i: 1, m: &m }; let nm = c.name(); let id = m.globals.len() as u32; m.gidx.insert(nm, id); m.globals.push(GInfo { name: nm, src: line, konst: false, ty: Rc::new(Ty::Void), init_at: 0, external: false }); }
        for line in &aliases {
            let mut c = Cur { s: line, i: 1, m: &m }; let nm = c.name();
            let at = line.rfind('@').unwrap() + 1; c.i = at; let target = c.name();
            if let Some(&f) = m.fidx.get(target) { m.fidx.insert(nm, f); } else if let Some(&g) = m.gidx.get(target) { m.gidx.insert(nm, g); }
        }
        let mut infos = vec![];
        for line in &gl {
            let mut c = Cur { s: line, i: 1, m: &m }; c.name(); c.expect("=");
            let mut external = false; let konst;
            loop { let w = c.word(); match w { "external" => external = true, "constant" => { konst = true; break } "global" => { konst = false; break } "" => panic!("global {}", line), _ => { if c.b()[c.i] == b'(' { c.skip_parens() } } } }
            let ty = c.ty();
            infos.push((konst, ty, c.i, external));
        }
        for (g, (k, t, i, e)) in m.globals.iter_mut().zip(infos) { g.konst = k; g.ty = t; g.init_at = i; g.external = e; }
        Box::leak(Box::new(m))
    }
    pub fn sym_addr(&self, nm: &str) -> Option<u64> {
        if let Some(&g) = self.gidx.get(nm) { return Some(g_addr(g)); }
        self.fidx.get(nm).map(|&f| fn_addr(f))
    }
    pub fn global_init(&self, g: u32) -> Vec<u8> {
        let gi = &self.globals[g as usize];
        let mut out = vec![0u8; gi.ty.size() as usize];
        if gi.external { out.resize(64.max(out.len()), 0); return out; }
        let v = Cur { s: gi.src, i: gi.init_at, m: self }.konst(&gi.ty);
        fn put(out: &mut [u8], off: usize, t: &Ty, v: &Val) {
            match v {
                Val::Agg(a) => for (i, x) in a.iter().enumerate() { let (o, ft) = t.field(i as u64); put(out, off + o as usize, &ft, x) },
                Val::C(c) => { let n = t.size() as usize; let b = c.to_le_bytes(); for i in 0..n.min(8) { out[off + i] = b[i] } }
                Val::E(e) => { let k = as_const(*e).unwrap().to_le_bytes(); let n = t.size() as usize; out[off..off + n].copy_from_slice(&k[..n]); }
            }
        }
        put(&mut out, 0, &gi.ty, &v);
        out
    }
    pub fn func(&'static self, id: u32) -> Option<&'static Func> {
        let fi = &self.fns[id as usize];
        if let Some(f) = *fi.body.borrow() { return Some(f); }
        let (s, e) = fi.def?;
        let f: &'static Func = Box::leak(Box::new(decode(self, id, &self.text[s..e])));
        *fi.body.borrow_mut() = Some(f);
        Some(f)
    }
}

struct Dec<'m> { m: &'m Module, regs: HashMap<&'static str, u32>, consts: Vec<Val>, kmap: HashMap<u64, u32>, blocks: HashMap<&'static str, u32> }
impl<'m> Dec<'m> {
    fn reg(&mut self, n: &'static str) -> u32 { let k = self.regs.len() as u32; *self.regs.entry(n).or_insert(k) }
    fn o(&mut self, r: Raw) -> O {
        match r {
            Raw::Reg(n) => self.reg(n),
            Raw::K(v) => {
                if let Val::C(c) = v { if let Some(&i) = self.kmap.get(&c) { return i | CONST; } self.kmap.insert(c, self.consts.len() as u32); }
                self.consts.push(v); (self.consts.len() as u32 - 1) | CONST
            }
        }
    }
    fn opn(&mut self, c: &mut Cur, t: &T) -> O { let r = c.opnd(t); self.o(r) }
    fn topn(&mut self, c: &mut Cur) -> (T, O) { let t = c.ty(); let o = self.opn(c, &t); (t, o) }
    fn label(&mut self, c: &mut Cur) -> u32 { c.expect("label"); c.ws(); c.expect("%"); let n = c.name(); self.blocks[n] }
}
fn label_of(line: &'static str) -> Option<&'static str> {
    let b = line.as_bytes();
    if b.is_empty() || b[0] == b' ' || b[0] == b';' || b[0] == b'}' || b[0] == b'\n' { return None; }
    if b[0] == b'"' { let e = line[1..].find('"')?; return Some(&line[1..1 + e]); }
    let e = line.find(':')?;
    Some(&line[..e])
}
fn decode(m: &'static Module, id: u32, text: &'static str) -> Func {
    let mut lines = text.lines();
    let head = lines.next().unwrap();
    let mut d = Dec { m, regs: HashMap::new(), consts: vec![], kmap: HashMap::new(), blocks: HashMap::new() };
    // parameters
    let at = head.find('@').unwrap() + 1;
    let mut c = Cur { s: head, i: at, m };
    c.name(); c.expect("(");
    let mut nparams = 0;
    if !c.eat(")") {
        loop {
            if c.eat("...") { c.expect(")"); break; }
            c.ty();
            loop { match c.peek() { b'%' | b',' | b')' => break, _ => { let w = c.word(); if w == "align" { if c.peek() == b'(' { c.skip_parens() } else { c.int(); } } else if c.b()[c.i] == b'(' { c.skip_parens() } else if w.is_empty() { panic!("param {}", head) } } } }
            if c.peek() == b'%' { c.i += 1; let n = c.name(); let r = d.reg(n); assert_eq!(r, nparams); } else { let n: &'static str = Box::leak(format!("{}", nparams).into_boxed_str()); d.reg(n); }
            nparams += 1;
            if c.eat(")") { break; }
            c.expect(",");
        }
    }
    let fdbg = head.find("!dbg !").map(|i| { let mut c = Cur { s: head, i: i + 6, m }; c.int() as u32 }).unwrap_or(0);
    // blocks
    let body: Vec<&'static str> = lines.collect();
    let mut bl: Vec<Vec<&'static str>> = vec![];
    for (k, l) in body.iter().enumerate() {
        if let Some(n) = label_of(l) { d.blocks.insert(n, bl.len() as u32); bl.push(vec![]); continue; }
        if l.is_empty() || l.starts_with('}') || l.starts_with(';') { continue; }
        if bl.is_empty() { let n: &'static str = Box::leak(format!("{}", nparams).into_boxed_str()); d.blocks.insert(n, 0); bl.push(vec![]); }
        let t = l.trim_start();
        if t.starts_with("#dbg") { continue; }
        // continuation lines (switch tables, landingpad clauses)
        let cont = t.starts_with(']') || t.starts_with("cleanup") || t.starts_with("catch ") || t.starts_with("filter ") || (t.starts_with("to label") ) || (t.starts_with('i') && t.contains(", label %") && !t.starts_with("invoke"));
        if cont {
            let cur = bl.last_mut().unwrap(); let last = cur.pop().unwrap();
            let st = last.as_ptr() as usize - text.as_ptr() as usize; let en = l.as_ptr() as usize + l.len() - text.as_ptr() as usize;
            cur.push(&text[st..en]);
        } else { bl.last_mut().unwrap().push(l); }
        let _ = k;
    }
    let mut blocks = vec![];
    for b in &bl {
        let mut blk = Block { phis: vec![], ins: vec![], dbg: vec![], hit: Cell::new(false) };
        for l in b {
            let dbg = l.find("!dbg !").map(|i| { let mut c = Cur { s: l, i: i + 6, m }; c.int() as u32 }).unwrap_or(0);
            let mut c = Cur { s: l, i: 0, m };
            let mut dst = NONE;
            if c.peek() == b'%' { c.i += 1; let n = c.name(); dst = d.reg(n); c.expect("="); }
            if c.peek_word() == "phi" {
                c.word(); while matches!(c.peek_word(), "nnan" | "ninf" | "nsz" | "fast" | "contract" | "afn" | "reassoc" | "arcp") { c.word(); }
                let t = c.ty(); let mut inc = vec![];
                loop { c.expect("["); let o = d.opn(&mut c, &t); c.expect(","); c.expect("%"); let n = c.name(); inc.push((d.blocks[n], o)); c.expect("]"); if !c.eat(",") { break } if c.peek() != b'[' { break } }
                blk.phis.push(Phi { dst, inc });
                continue;
            }
            let i = inst(&mut d, &mut c, dst);
            if let I::Nop = i { continue; }
            blk.ins.push(i); blk.dbg.push(dbg);
        }
        blocks.push(blk);
    }
    Func { name: m.fns[id as usize].name, id, params: nparams, nregs: d.regs.len() as u32, consts: d.consts, blocks, dbg: fdbg }
}
fn flags(c: &mut Cur) { while matches!(c.peek_word(), "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "inbounds" | "nusw" | "fast" | "nnan" | "ninf" | "nsz" | "contract" | "afn" | "reassoc" | "arcp" | "samesign" | "volatile" | "atomic" | "weak" | "inrange") { c.word(); if c.peek() == b'(' { c.skip_parens() } } }
fn inst(d: &mut Dec, c: &mut Cur, dst: u32) -> I {
    let w = c.word();
    match w {
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
            flags(c);
            let t = c.ty(); let a = d.opn(c, &t); c.expect(","); let b = d.opn(c, &t);
            let op = match w { "add" => Op::Add, "sub" => Op::Sub, "mul" => Op::Mul, "udiv" => Op::UDiv, "sdiv" => Op::SDiv, "urem" => Op::URem, "srem" => Op::SRem, "and" => Op::And, "or" => Op::Or, "xor" => Op::Xor, "shl" => Op::Shl, "lshr" => Op::LShr, _ => Op::AShr };
            if let Ty::Vec(_, e) = &*t { I::VBin(op, e.bits(), dst, a, b) } else { I::Bin(op, t.bits(), dst, a, b) }
        }
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => { flags(c); let t = c.ty(); let a = d.opn(c, &t); c.expect(","); let b = d.opn(c, &t); if t.is_agg() { return I::Bad(format!("vector {}", w)) } I::FBin(match w { "fadd" => b'+', "fsub" => b'-', "fmul" => b'*', "fdiv" => b'/', _ => b'%' }, t.bits(), dst, a, b) }
        "fneg" => { flags(c); let t = c.ty(); let a = d.opn(c, &t); I::FNeg(t.bits(), dst, a) }
        "fcmp" => { flags(c); let p = c.word(); let t = c.ty(); let a = d.opn(c, &t); c.expect(","); let b = d.opn(c, &t); if t.is_agg() { return I::Bad("vector fcmp".into()) } I::FCmp(p.to_string(), t.bits(), dst, a, b) }
        "icmp" => {
            flags(c); let p = c.word(); let t = c.ty(); let a = d.opn(c, &t); c.expect(","); let b = d.opn(c, &t);
            let p = match p { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => panic!("pred {}", p) };
            if let Ty::Vec(_, e) = &*t { I::VICmp(p, e.bits(), dst, a, b) } else { I::ICmp(p, t.bits(), dst, a, b) }
        }
        "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "ptrtoaddr" => {
            flags(c); let (t, a) = d.topn(c); c.expect("to"); let t2 = c.ty();
            let k = match w { "trunc" => CastK::Trunc, "zext" => CastK::ZExt, "sext" => CastK::SExt, "bitcast" => CastK::Bitcast, "ptrtoint" | "inttoptr" | "ptrtoaddr" => CastK::PtrInt, "fptoui" => CastK::FpToUi, "fptosi" => CastK::FpToSi, "uitofp" => CastK::UiToFp, "sitofp" => CastK::SiToFp, "fpext" => CastK::FpExt, _ => CastK::FpTrunc };
            I::Cast(k, t, t2, dst, a)
        }
        "select" => { flags(c); let (_, k) = d.topn(c); c.expect(","); let (t, a) = d.topn(c); c.expect(","); let (_, b) = d.topn(c); I::Select(t, dst, k, a, b) }
        "freeze" => { let (_, a) = d.topn(c); I::Copy(dst, a) }
        "load" => { flags(c); let t = c.ty(); c.expect(","); let (_, p) = d.topn(c); I::Load(t, dst, p) }
        "store" => { flags(c); let (t, v) = d.topn(c); c.expect(","); let (_, p) = d.topn(c); I::Store(t, v, p) }
        "alloca" => { let t = c.ty(); let mut n = { let one = Raw::K(Val::C(1)); d.o(one) }; if c.eat(",") && c.peek() == b'i' { let (_, k) = d.topn(c); n = k; } I::Alloca(dst, t.size(), n) }
        "getelementptr" => {
            flags(c); let st = c.ty(); c.expect(","); let (_, base) = d.topn(c);
            let mut off = 0u64; let mut idx = vec![]; let mut cur = st; let mut first = true;
            while c.eat(",") {
                if c.peek() == b'!' { break; }
                let it = c.ty(); let r = c.opnd(&it);
                let kv = match &r { Raw::K(Val::C(k)) => Some(sx(*k as u128, it.bits()) as i64), Raw::K(Val::Agg(_)) => return I::Bad("vector gep".into()), _ => None };
                if first { first = false; match kv { Some(k) => off = off.wrapping_add((k as u64).wrapping_mul(cur.size())), None => { let o = d.o(r); idx.push((o, cur.size(), it.bits())) } } }
                else {
                    match kv { Some(k) => { let (o, nt) = cur.field(k as u64); off = off.wrapping_add(o); cur = nt; }
                        None => { let (_, nt) = cur.field(0); let o = d.o(r); idx.push((o, nt.size(), it.bits())); cur = nt; } }
                }
            }
            I::Gep(dst, base, off, idx)
        }
        "extractvalue" => { let (_, a) = d.topn(c); let mut ix = vec![]; while c.eat(",") { if c.peek() == b'!' { break } ix.push(c.int() as u64) } I::ExtractV(dst, a, ix) }
        "insertvalue" => { let (_, a) = d.topn(c); c.expect(","); let (_, v) = d.topn(c); let mut ix = vec![]; while c.eat(",") { if c.peek() == b'!' { break } ix.push(c.int() as u64) } I::InsertV(dst, a, v, ix) }
        "extractelement" => { let (_, a) = d.topn(c); c.expect(","); let (_, i) = d.topn(c); I::ExtractE(dst, a, i) }
        "insertelement" => { let (_, a) = d.topn(c); c.expect(","); let (_, v) = d.topn(c); c.expect(","); let (_, i) = d.topn(c); I::InsertE(dst, a, v, i) }
        "shufflevector" => {
            let (_, a) = d.topn(c); c.expect(","); let (_, b) = d.topn(c); c.expect(","); let mt = c.ty(); let mk = c.konst(&mt);
            let v = if let Val::Agg(v) = mk { v.iter().map(|x| x.c() as u32).collect() } else { vec![] };
            I::Shuffle(dst, a, b, v)
        }
        "atomicrmw" => { flags(c); let op = c.word(); let (_, p) = d.topn(c); c.expect(","); let (t, v) = d.topn(c); I::Rmw(op.to_string(), t, dst, p, v) }
        "cmpxchg" => { flags(c); let (_, p) = d.topn(c); c.expect(","); let (t, a) = d.topn(c); c.expect(","); let (_, b) = d.topn(c); I::CmpXchg(t, dst, p, a, b) }
        "fence" => I::Nop,
        "br" => {
            if c.peek_word() == "label" { I::Br(d.label(c)) } else { let (_, k) = d.topn(c); c.expect(","); let a = d.label(c); c.expect(","); let b = d.label(c); I::CondBr(k, a, b) }
        }
        "switch" => {
            let (t, v) = d.topn(c); c.expect(","); let def = d.label(c); c.expect("["); let mut cs = vec![];
            while !c.eat("]") { let ct = c.ty(); let k = match c.konst(&ct) { Val::C(x) => x as u128, Val::E(e) => as_const(e).unwrap(), _ => panic!() }; c.expect(","); cs.push((k, d.label(c))); }
            I::Switch(t.bits(), v, def, cs)
        }
        "ret" => { let t = c.ty(); if *t == Ty::Void { I::Ret(NONE) } else { let o = d.opn(c, &t); I::Ret(o) } }
        "unreachable" => I::Unreachable,
        "landingpad" | "resume" | "cleanupret" => I::Bad("unwind".into()),
        "call" | "invoke" | "tail" | "musttail" | "notail" => {
            let inv = w == "invoke";
            if matches!(w, "tail" | "musttail" | "notail") { c.expect("call"); }
            flags(c);
            // return attributes / calling conventions, then type
            loop {
                match c.peek() { b'{' | b'[' | b'<' | b'%' => break, _ => {} }
                let pw = c.peek_word();
                let isty = matches!(pw, "void" | "ptr" | "float" | "double" | "token") || (pw.starts_with('i') && pw.len() > 1 && pw[1..].bytes().all(|b| b.is_ascii_digit()));
                if isty { break; }
                if pw == "align" { c.word(); if c.peek() == b'(' { c.skip_parens() } else { c.int(); } continue; }
                if pw.is_empty() { panic!("call {}", c.s) }
                c.word(); if c.b()[c.i] == b'(' { c.skip_parens() }
            }
            let ret = c.ty();
            if c.peek() == b'(' { c.skip_parens(); }
            c.ws();
            let callee = if c.eat("@") { let n = c.name(); Callee::Fn(*d.m.fidx.get(n).unwrap_or_else(|| panic!("callee {}", n))) }
                else if c.eat("%") { let n = c.name(); Callee::Ind(d.reg(n)) }
                else if c.eat("asm") { loop { let pw = c.peek_word(); if pw.is_empty() { break } c.word(); } c.expect("\""); let st = c.i; while c.b()[c.i] != b'"' { c.i += 1 } let s = c.s[st..c.i].to_string(); c.i += 1; c.expect(","); c.ws(); c.expect("\""); while c.b()[c.i] != b'"' { c.i += 1 } c.i += 1; Callee::Asm(Rc::new(s)) }
                else { let r = c.konst(&Rc::new(Ty::Ptr)); Callee::Ind(d.o(Raw::K(r))) };
            if let Callee::Fn(f) = &callee {
                let n = d.m.fns[*f as usize].name;
                if n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.assume") || n.starts_with("llvm.dbg") || n.starts_with("llvm.invariant") || n.starts_with("llvm.x86.sse2.pause") || n.starts_with("llvm.prefetch") || n.starts_with("llvm.donothing") || n.starts_with("llvm.sideeffect") { return I::Nop; }
            }
            c.expect("("); let mut args = vec![]; let mut tys = vec![];
            if !c.eat(")") { loop { let (t, o) = d.topn(c); args.push(o); tys.push(t); if c.eat(")") { break } c.expect(","); } }
            let mut normal = NONE;
            if inv { let i = c.s[c.i..].find("to label %").unwrap(); c.i += i + 3; normal = d.label(c); }
            I::Call(Box::new(CallI { dst, ret, callee, args, tys, normal }))
        }
        "va_arg" | "indirectbr" => I::Bad(w.into()),
        _ => panic!("instruction {:?} in {}", w, c.s),
    }
}
