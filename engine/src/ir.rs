//! Parser for textual LLVM IR (the subset rustc emits); function bodies are parsed on first use.
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    Float(u16),
    Vec(u32, Arc<Ty>),
    Arr(u64, Arc<Ty>),
    Struct(Vec<Ty>, bool),
    Other,
}

static PW: std::sync::atomic::AtomicU16 = std::sync::atomic::AtomicU16::new(64);
/// bits in a pointer of the target that is being executed
pub fn pw() -> u16 {
    PW.load(std::sync::atomic::Ordering::Relaxed)
}
pub fn set_pw(w: u16) {
    PW.store(w, std::sync::atomic::Ordering::Relaxed)
}
/// an address is (object number << sh()) + 0x1000 + offset
pub fn sh() -> u32 {
    if pw() == 64 {
        32
    } else {
        16
    }
}
/// object numbers below this are globals and functions
pub fn first_id() -> u32 {
    if pw() == 64 {
        0x10000
    } else {
        0x2000
    }
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr => pw() as u64 / 8,
            Ty::Float(w) => (*w as u64 / 8).max(1),
            Ty::Vec(..) => self.store_size().next_power_of_two().max(1),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// bytes written by a store
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            Ty::Ptr => pw() as u64 / 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(..) => self.struct_layout().1,
            _ => 0,
        }
    }
    /// allocation size (array stride)
    pub fn size(&self) -> u64 {
        let a = self.align();
        (self.store_size() + a - 1) / a * a
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w as u32,
            Ty::Ptr => pw() as u32,
            Ty::Float(w) => *w as u32,
            Ty::Vec(n, t) => n * t.bits(),
            _ => self.store_size() as u32 * 8,
        }
    }
    pub fn struct_layout(&self) -> (Vec<u64>, u64) {
        if let Ty::Struct(f, packed) = self {
            let mut off = 0u64;
            let mut v = Vec::new();
            let mut al = 1;
            for t in f {
                let a = if *packed { 1 } else { t.align() };
                al = al.max(a);
                off = (off + a - 1) / a * a;
                v.push(off);
                off += t.size();
            }
            if !*packed {
                off = (off + al - 1) / al * al;
            }
            (v, off)
        } else {
            (vec![], self.size())
        }
    }
}

#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128, u16),
    Undef(Ty),
    Zero(Ty),
    Bytes(Arc<Vec<u8>>),
    Arr(Vec<Cst>),
    Vec(Vec<Cst>),
    Struct(Vec<Cst>, Ty),
    Global(Arc<str>),
    /// base + byte offset
    Off(Box<Cst>, i64),
    Cast(Box<Cst>, Ty),
    Bin(BinOp, Box<Cst>, Box<Cst>, u16),
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum V {
    Reg(u32),
    C(Arc<Cst>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    PtrInt,
    Bitcast,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Val(V),
    Asm(String),
}

#[derive(Clone, Debug)]
pub struct Call {
    pub callee: Callee,
    pub ret: Ty,
    pub args: Vec<(Ty, V)>,
    pub noreturn: bool,
}

#[derive(Clone, Debug)]
pub enum K {
    Bin(BinOp, Ty, V, V),
    Icmp(Pred, Ty, V, V),
    Select(Ty, V, V, V),
    Phi(Vec<(V, u32)>),
    Alloca(u64, u64),
    AllocaDyn(u64, V, u64),
    Load(Ty, V, u64),
    Store(Ty, V, V, u64),
    Gep(V, i64, Vec<(V, u16, i64)>),
    ExtractValue(V, Vec<u32>),
    InsertValue(V, V, Vec<u32>),
    ExtractElt(V, V),
    InsertElt(V, V, V),
    Shuffle(V, V, Vec<i32>, Ty),
    Cast(CastOp, Ty, Ty, V),
    Freeze(V),
    Br(u32),
    CondBr(V, u32, u32),
    Switch(V, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, V)>),
    Unreachable,
    Call(Call),
    Invoke(Call, u32),
    CmpXchg(Ty, V, V, V),
    AtomicRmw(String, Ty, V, V),
    Nop,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub dst: Option<u32>,
    pub k: K,
    pub line: u32,
}

#[derive(Debug)]
pub struct Body {
    pub nregs: u32,
    pub params: Vec<u32>,
    pub param_tys: Vec<Ty>,
    pub blocks: Vec<Vec<Inst>>,
}

pub struct Func {
    pub name: Arc<str>,
    pub ret: Ty,
    pub lines: (usize, usize),
    pub noreturn: bool,
    pub features: Vec<String>,
    pub body: OnceLock<Result<Body, String>>,
    pub id: u32,
}

pub struct Global {
    pub name: Arc<str>,
    pub konst: bool,
    pub line: usize,
    pub id: u32,
    pub parsed: OnceLock<Result<(Ty, Cst, u64), String>>,
}

pub struct Module {
    pub text: String,
    lines: Vec<(u32, u32)>,
    pub funcs: HashMap<Arc<str>, Func>,
    pub decls: HashMap<Arc<str>, bool>, // declared only: noreturn
    pub globals: HashMap<Arc<str>, Global>,
    pub by_id: Vec<Arc<str>>,
    types: HashMap<String, Ty>,
    attrs: HashMap<String, (bool, Vec<String>)>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> {
    Id(&'a str),
    Loc(&'a str),
    Glo(&'a str),
    Num(&'a str),
    Str(&'a str),
    CStr(&'a str),
    Meta(&'a str),
    Att(&'a str),
    P(u8),
}

fn lex(s: &str) -> Vec<Tok<'_>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut v = Vec::new();
    let isid = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' => i += 1,
            b';' => break,
            b'%' | b'@' | b'!' | b'#' => {
                let st = i + 1;
                let mut j = st;
                let (s0, e0);
                if j < b.len() && b[j] == b'"' {
                    j += 1;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    s0 = st + 1;
                    e0 = j;
                    j += 1;
                } else {
                    while j < b.len() && isid(b[j]) {
                        j += 1;
                    }
                    s0 = st;
                    e0 = j;
                }
                let t = &s[s0..e0];
                v.push(match c {
                    b'%' => Tok::Loc(t),
                    b'@' => Tok::Glo(t),
                    b'!' => Tok::Meta(t),
                    _ => Tok::Att(t),
                });
                i = j;
            }
            b'"' => {
                let st = i + 1;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                v.push(Tok::Str(&s[st..j]));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let st = i + 2;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                v.push(Tok::CStr(&s[st..j]));
                i = j + 1;
            }
            b'-' | b'0'..=b'9' => {
                let st = i;
                i += 1;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || b[i] == b'+') {
                    i += 1;
                }
                v.push(Tok::Num(&s[st..i]));
            }
            _ if isid(c) => {
                let st = i;
                while i < b.len() && isid(b[i]) {
                    i += 1;
                }
                v.push(Tok::Id(&s[st..i]));
            }
            _ => {
                v.push(Tok::P(c));
                i += 1;
            }
        }
    }
    v
}

struct P<'a, 'm> {
    t: Vec<Tok<'a>>,
    i: usize,
    m: &'m Module,
    regs: Option<&'a std::cell::RefCell<RegMap>>,
}

#[derive(Default)]
pub struct RegMap {
    m: HashMap<String, u32>,
}
impl RegMap {
    fn get(&mut self, n: &str) -> u32 {
        if let Some(x) = self.m.get(n) {
            return *x;
        }
        let k = self.m.len() as u32;
        self.m.insert(n.to_string(), k);
        k
    }
}

type R<X> = Result<X, String>;

impl<'a, 'm> P<'a, 'm> {
    fn peek(&self) -> Option<&Tok<'a>> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<Tok<'a>> {
        let r = self.t.get(self.i).cloned().ok_or("unexpected end of line")?;
        self.i += 1;
        Ok(r)
    }
    fn is_p(&self, c: u8) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn is_id(&self, s: &str) -> bool {
        self.peek() == Some(&Tok::Id(s))
    }
    fn eat_p(&mut self, c: u8) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp_p(&mut self, c: u8) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected '{}' got {:?}", c as char, self.peek()))
        }
    }
    fn skip_parens(&mut self) -> R<()> {
        self.exp_p(b'(')?;
        let mut d = 1;
        while d > 0 {
            match self.next()? {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => d -= 1,
                _ => {}
            }
        }
        Ok(())
    }
    fn is_ty(&self) -> bool {
        match self.peek() {
            Some(Tok::Id(s)) => is_ty_word(s),
            Some(Tok::P(c)) => matches!(c, b'{' | b'[' | b'<'),
            Some(Tok::Loc(n)) => self.m.types.contains_key(*n),
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = match self.next()? {
            Tok::Id(s) => match s {
                "void" => Ty::Void,
                "ptr" => {
                    if self.eat_id("addrspace") {
                        self.skip_parens()?;
                    }
                    Ty::Ptr
                }
                "half" | "bfloat" => Ty::Float(16),
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "x86_fp80" => Ty::Float(80),
                "fp128" => Ty::Float(128),
                "label" | "metadata" | "token" | "opaque" => Ty::Other,
                _ => {
                    let w: u16 = s.strip_prefix('i').and_then(|x| x.parse().ok()).ok_or_else(|| format!("type {s}"))?;
                    Ty::Int(w)
                }
            },
            Tok::Loc(n) => self.m.types.get(n).cloned().ok_or_else(|| format!("type %{n}"))?,
            Tok::P(b'{') => self.struct_body(false)?,
            Tok::P(b'[') => {
                let n = self.num()? as u64;
                if !self.eat_id("x") {
                    return Err("array type".into());
                }
                let t = self.ty()?;
                self.exp_p(b']')?;
                Ty::Arr(n, Arc::new(t))
            }
            Tok::P(b'<') => {
                if self.eat_p(b'{') {
                    let t = self.struct_body(true)?;
                    self.exp_p(b'>')?;
                    t
                } else {
                    let n = self.num()? as u32;
                    if !self.eat_id("x") {
                        return Err("vector type".into());
                    }
                    let t = self.ty()?;
                    self.exp_p(b'>')?;
                    Ty::Vec(n, Arc::new(t))
                }
            }
            x => return Err(format!("type at {x:?}")),
        };
        Ok(t)
    }
    fn struct_body(&mut self, packed: bool) -> R<Ty> {
        let mut f = Vec::new();
        if self.eat_p(b'}') {
            return Ok(Ty::Struct(f, packed));
        }
        loop {
            f.push(self.ty()?);
            if self.eat_p(b'}') {
                break;
            }
            self.exp_p(b',')?;
        }
        Ok(Ty::Struct(f, packed))
    }
    fn num(&mut self) -> R<i128> {
        match self.next()? {
            Tok::Num(s) => s.parse::<i128>().map_err(|e| format!("{s}: {e}")),
            x => Err(format!("number at {x:?}")),
        }
    }
    fn attrs(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(Tok::Id(s)) => {
                    if is_val_word(s) || is_ty_word(s) {
                        return Ok(());
                    }
                    let s = *s;
                    self.i += 1;
                    if s == "align" || s == "cc" {
                        if let Some(Tok::Num(_)) = self.peek() {
                            self.i += 1;
                            continue;
                        }
                    }
                    if self.is_p(b'(') {
                        self.skip_parens()?;
                    }
                }
                Some(Tok::Str(_)) => {
                    self.i += 1;
                    if self.eat_p(b'=') {
                        self.next()?;
                    }
                }
                _ => return Ok(()),
            }
        }
    }
    fn tval(&mut self) -> R<(Ty, V)> {
        let t = self.ty()?;
        self.attrs()?;
        let v = self.val(&t)?;
        Ok((t, v))
    }
    fn val(&mut self, t: &Ty) -> R<V> {
        if let Some(Tok::Loc(n)) = self.peek() {
            let n = n.to_string();
            self.i += 1;
            let r = self.regs.ok_or("register in constant")?.borrow_mut().get(&n);
            return Ok(V::Reg(r));
        }
        Ok(V::C(Arc::new(self.cst(t)?)))
    }
    fn tcst(&mut self) -> R<(Ty, Cst)> {
        let t = self.ty()?;
        let c = self.cst(&t)?;
        Ok((t, c))
    }
    fn cst(&mut self, t: &Ty) -> R<Cst> {
        match self.next()? {
            Tok::Num(s) => match t {
                Ty::Int(w) => {
                    let v = if let Some(h) = s.strip_prefix("u0x").or_else(|| s.strip_prefix("s0x")) {
                        u128::from_str_radix(h, 16).map_err(|e| e.to_string())?
                    } else {
                        match s.parse::<i128>() {
                            Ok(v) => v as u128,
                            Err(_) => s.parse::<u128>().map_err(|e| format!("{s}: {e}"))?,
                        }
                    };
                    Ok(Cst::Int(v & crate::term::mask(*w), *w))
                }
                _ => Ok(Cst::Unsupported(format!("float constant {s}"))),
            },
            Tok::Glo(n) => Ok(Cst::Global(n.into())),
            Tok::CStr(s) => Ok(Cst::Bytes(Arc::new(unescape(s)))),
            Tok::P(b'[') => Ok(Cst::Arr(self.clist(b']')?)),
            Tok::P(b'{') => Ok(Cst::Struct(self.clist(b'}')?, t.clone())),
            Tok::P(b'<') => {
                if self.eat_p(b'{') {
                    let l = self.clist(b'}')?;
                    self.exp_p(b'>')?;
                    Ok(Cst::Struct(l, t.clone()))
                } else {
                    Ok(Cst::Vec(self.clist(b'>')?))
                }
            }
            Tok::Id(s) => match s {
                "true" => Ok(Cst::Int(1, 1)),
                "false" => Ok(Cst::Int(0, 1)),
                "null" => Ok(Cst::Int(0, 64)),
                "undef" | "poison" => Ok(Cst::Undef(t.clone())),
                "zeroinitializer" => Ok(Cst::Zero(t.clone())),
                "splat" => {
                    self.exp_p(b'(')?;
                    let (_, c) = self.tcst()?;
                    self.exp_p(b')')?;
                    match t {
                        Ty::Vec(n, _) => Ok(Cst::Vec(vec![c; *n as usize])),
                        _ => Err("splat".into()),
                    }
                }
                "getelementptr" => {
                    loop {
                        if self.is_p(b'(') {
                            break;
                        }
                        if let Some(Tok::Id(x)) = self.peek() {
                            let x = *x;
                            self.i += 1;
                            if x == "inrange" {
                                self.skip_parens()?;
                            }
                        } else {
                            return Err("constant gep".into());
                        }
                    }
                    self.exp_p(b'(')?;
                    let st = self.ty()?;
                    self.exp_p(b',')?;
                    let (_, base) = self.tcst()?;
                    let mut off = 0i64;
                    let mut cur = st.clone();
                    let mut first = true;
                    while self.eat_p(b',') {
                        let (_, ix) = self.tcst()?;
                        let ix = match ix {
                            Cst::Int(v, w) => sx(v, w),
                            _ => return Ok(Cst::Unsupported("constant gep index".into())),
                        };
                        if first {
                            off += ix * st.size() as i64;
                            first = false;
                        } else {
                            let (o, n) = step(&cur, ix)?;
                            off += o;
                            cur = n;
                        }
                    }
                    self.exp_p(b')')?;
                    Ok(Cst::Off(Box::new(base), off))
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "ptrtoaddr" | "addrspacecast" => {
                    self.exp_p(b'(')?;
                    let (_, c) = self.tcst()?;
                    if !self.eat_id("to") {
                        return Err("cast constant".into());
                    }
                    let ty = self.ty()?;
                    self.exp_p(b')')?;
                    Ok(Cst::Cast(Box::new(c), ty))
                }
                "add" | "sub" | "xor" | "mul" | "and" | "or" => {
                    let op = match s {
                        "add" => BinOp::Add,
                        "sub" => BinOp::Sub,
                        "mul" => BinOp::Mul,
                        "and" => BinOp::And,
                        "or" => BinOp::Or,
                        _ => BinOp::Xor,
                    };
                    while !self.is_p(b'(') {
                        self.next()?;
                    }
                    self.exp_p(b'(')?;
                    let (ty, a) = self.tcst()?;
                    self.exp_p(b',')?;
                    let (_, b) = self.tcst()?;
                    self.exp_p(b')')?;
                    let w = match ty {
                        Ty::Int(w) => w,
                        _ => return Err("constant bin".into()),
                    };
                    Ok(Cst::Bin(op, Box::new(a), Box::new(b), w))
                }
                _ => Ok(Cst::Unsupported(format!("constant {s}"))),
            },
            x => Err(format!("constant at {x:?}")),
        }
    }
    fn clist(&mut self, end: u8) -> R<Vec<Cst>> {
        let mut v = Vec::new();
        if self.eat_p(end) {
            return Ok(v);
        }
        loop {
            v.push(self.tcst()?.1);
            if self.eat_p(end) {
                return Ok(v);
            }
            self.exp_p(b',')?;
        }
    }
}

pub fn sx(v: u128, w: u16) -> i64 {
    if w >= 128 {
        return v as i64;
    }
    (((v << (128 - w as u32)) as i128) >> (128 - w as u32)) as i64
}

pub fn step(t: &Ty, ix: i64) -> R<(i64, Ty)> {
    match t {
        Ty::Struct(f, _) => {
            let l = t.struct_layout().0;
            Ok((l[ix as usize] as i64, f[ix as usize].clone()))
        }
        Ty::Arr(_, e) => Ok((ix * e.size() as i64, (**e).clone())),
        Ty::Vec(_, e) => Ok((ix * e.size() as i64, (**e).clone())),
        _ => Err("gep step".into()),
    }
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut v = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                v.push(b'\\');
                i += 2;
            } else {
                v.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    v
}

fn is_ty_word(s: &str) -> bool {
    matches!(s, "void" | "ptr" | "half" | "bfloat" | "float" | "double" | "label" | "metadata" | "token" | "x86_fp80" | "fp128")
        || (s.len() > 1 && s.as_bytes()[0] == b'i' && s[1..].bytes().all(|c| c.is_ascii_digit()))
}
fn is_val_word(s: &str) -> bool {
    matches!(
        s,
        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "splat" | "add" | "sub" | "mul" | "and" | "or" | "xor" | "asm" | "blockaddress" | "none" | "ptrtoaddr" | "addrspacecast"
    )
}

impl Module {
    pub fn parse(text: String) -> R<Module> {
        let mut lines = Vec::new();
        {
            let b = text.as_bytes();
            let mut s = 0usize;
            for i in 0..b.len() {
                if b[i] == b'\n' {
                    lines.push((s as u32, i as u32));
                    s = i + 1;
                }
            }
            if s < b.len() {
                lines.push((s as u32, b.len() as u32));
            }
        }
        let mut m = Module { text, lines, funcs: HashMap::new(), decls: HashMap::new(), globals: HashMap::new(), by_id: vec!["".into()], types: HashMap::new(), attrs: HashMap::new() };
        // attribute groups and named types first
        for k in 0..m.lines.len() {
            let l = m.line(k);
            if l.starts_with("attributes #") {
                let l = l.to_string();
                let t = lex(&l);
                let name = match &t[1] {
                    Tok::Att(n) => n.to_string(),
                    _ => continue,
                };
                let mut nr = false;
                let mut feats = Vec::new();
                for j in 2..t.len() {
                    match &t[j] {
                        Tok::Id("noreturn") => nr = true,
                        Tok::Str("target-features") => {
                            if let Some(Tok::Str(f)) = t.get(j + 2) {
                                feats = f.split(',').map(|x| x.to_string()).collect();
                            }
                        }
                        _ => {}
                    }
                }
                m.attrs.insert(name, (nr, feats));
            } else if l.starts_with('%') {
                let l = l.to_string();
                if let Some((n, d)) = l[1..].split_once(" = type ") {
                    let d2 = d.to_string();
                    let mut p = P { t: lex(&d2), i: 0, m: &m, regs: None };
                    if let Ok(t) = p.ty() {
                        let n = n.trim_matches('"').to_string();
                        drop(p);
                        m.types.insert(n, t);
                    }
                }
            }
        }
        let mut k = 0;
        while k < m.lines.len() {
            let l = m.line(k);
            if l.starts_with("define") || l.starts_with("declare") {
                let def = l.starts_with("define");
                let l = l.to_string();
                let (name, ret, nr, feats) = m.header(&l).map_err(|e| format!("{e} in: {}", &l[..l.len().min(300)]))?;
                if def {
                    let st = k;
                    while m.line(k) != "}" {
                        k += 1;
                    }
                    let id = m.by_id.len() as u32;
                    let name: Arc<str> = name.as_str().into();
                    m.by_id.push(name.clone());
                    m.funcs.insert(name.clone(), Func { name, ret, lines: (st, k), noreturn: nr, features: feats, body: OnceLock::new(), id });
                } else {
                    let name: Arc<str> = name.as_str().into();
                    m.by_id.push(name.clone());
                    m.decls.insert(name, nr);
                }
            } else if l.starts_with('@') {
                let l2 = &l[..l.len().min(600)];
                let name = match lex(l2.split(" = ").next().unwrap_or(""))[0] {
                    Tok::Glo(n) => n.to_string(),
                    _ => String::new(),
                };
                let rest = &l[l.find(" = ").map(|x| x + 3).unwrap_or(0)..];
                // "constant" appears as a word before the type
                let mut konst = false;
                for w in rest.split_whitespace().take(12) {
                    if w == "constant" {
                        konst = true;
                        break;
                    }
                    if w == "global" {
                        break;
                    }
                }
                let id = m.by_id.len() as u32;
                let name: Arc<str> = name.as_str().into();
                m.by_id.push(name.clone());
                m.globals.insert(name.clone(), Global { name, konst, line: k, id, parsed: OnceLock::new() });
            }
            k += 1;
        }
        Ok(m)
    }
    pub fn line(&self, k: usize) -> &str {
        let (a, b) = self.lines[k];
        &self.text[a as usize..b as usize]
    }
    fn header(&self, l: &str) -> R<(String, Ty, bool, Vec<String>)> {
        let mut p = P { t: lex(l), i: 1, m: self, regs: None };
        p.attrs()?;
        let ret = p.ty()?;
        let name = match p.next()? {
            Tok::Glo(n) => n.to_string(),
            x => return Err(format!("function name at {x:?}")),
        };
        p.skip_parens()?;
        let mut nr = false;
        let mut feats = Vec::new();
        while let Some(t) = p.peek() {
            if let Tok::Att(n) = t {
                if let Some((a, f)) = self.attrs.get(*n) {
                    nr |= *a;
                    feats = f.clone();
                }
            }
            if let Tok::Id("noreturn") = t {
                nr = true;
            }
            p.i += 1;
        }
        Ok((name, ret, nr, feats))
    }
    pub fn global_init<'s>(&'s self, g: &'s Global) -> &'s R<(Ty, Cst, u64)> {
        g.parsed.get_or_init(|| {
            let l = self.line(g.line);
            let mut p = P { t: lex(l), i: 0, m: self, regs: None };
            p.next()?;
            p.exp_p(b'=')?;
            let mut external = false;
            loop {
                match p.next()? {
                    Tok::Id("global") | Tok::Id("constant") => break,
                    Tok::Id("external") | Tok::Id("extern_weak") => external = true,
                    Tok::Id(_) => {
                        if p.is_p(b'(') {
                            p.skip_parens()?;
                        }
                    }
                    Tok::P(b'=') => {}
                    x => return Err(format!("global at {x:?}")),
                }
            }
            let t = p.ty()?;
            let c = if external { Cst::Undef(t.clone()) } else { p.cst(&t)? };
            let mut al = t.align();
            while let Some(x) = p.peek() {
                if let Tok::Id("align") = x {
                    p.i += 1;
                    al = p.num()? as u64;
                    break;
                }
                p.i += 1;
            }
            Ok((t, c, al))
        })
    }
    pub fn body<'s>(&'s self, f: &'s Func) -> &'s R<Body> {
        f.body.get_or_init(|| self.parse_body(f))
    }
    fn parse_body(&self, f: &Func) -> R<Body> {
        let regs = std::cell::RefCell::new(RegMap::default());
        let hl = self.line(f.lines.0);
        let mut params = Vec::new();
        let mut ptys = Vec::new();
        let mut unnamed = 0u32;
        {
            let mut p = P { t: lex(hl), i: 1, m: self, regs: Some(&regs) };
            p.attrs()?;
            p.ty()?;
            p.next()?;
            p.exp_p(b'(')?;
            if !p.eat_p(b')') {
                loop {
                    let t = p.ty()?;
                    p.attrs()?;
                    let n = match p.peek() {
                        Some(Tok::Loc(n)) => {
                            let n = n.to_string();
                            p.i += 1;
                            n
                        }
                        _ => unnamed.to_string(),
                    };
                    if n == unnamed.to_string() {
                        unnamed += 1;
                    }
                    params.push(regs.borrow_mut().get(&n));
                    ptys.push(t);
                    if p.eat_p(b')') {
                        break;
                    }
                    p.exp_p(b',')?;
                }
            }
        }
        // collect blocks
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut groups: Vec<Vec<usize>> = Vec::new();
        let mut k = f.lines.0 + 1;
        let mut first = true;
        while k < f.lines.1 {
            let l = self.line(k);
            let bytes = l.as_bytes();
            if l.is_empty() || bytes[0] == b';' {
                k += 1;
                continue;
            }
            if bytes[0] != b' ' {
                // label
                let n = if bytes[0] == b'"' { l[1..].split('"').next().unwrap().to_string() } else { l.split(':').next().unwrap().to_string() };
                labels.insert(n, groups.len() as u32);
                groups.push(Vec::new());
                first = false;
            } else {
                if first {
                    labels.insert(unnamed.to_string(), 0);
                    groups.push(Vec::new());
                    first = false;
                }
                groups.last_mut().unwrap().push(k);
            }
            k += 1;
        }
        let mut blocks = Vec::new();
        for g in &groups {
            let mut v = Vec::new();
            let mut i = 0;
            while i < g.len() {
                let mut s = self.line(g[i]).to_string();
                let ln = g[i];
                let tr = s.trim_start();
                if tr.starts_with("switch") && !s.contains(']') {
                    while !self.line(g[i]).contains(']') {
                        i += 1;
                        s.push(' ');
                        s.push_str(self.line(g[i]));
                    }
                } else if tr.starts_with("invoke") || tr.contains("= invoke") {
                    if !s.contains(" to label ") {
                        i += 1;
                        s.push(' ');
                        s.push_str(self.line(g[i]));
                    }
                } else if tr.contains("= landingpad") {
                    while i + 1 < g.len() {
                        let t = self.line(g[i + 1]).trim_start();
                        if t.starts_with("cleanup") || t.starts_with("catch") || t.starts_with("filter") {
                            i += 1;
                        } else {
                            break;
                        }
                    }
                }
                i += 1;
                // SAFETY-free: lexed strings borrow from a leaked copy local to the parse
                let inst = {
                    let s2 = s;
                    let r = self.inst(&s2, &regs, &labels);
                    match r {
                        Ok((d, k)) => Inst { dst: d, k, line: ln as u32 },
                        Err(e) => Inst { dst: None, k: K::Unsupported(format!("{e}: {}", s2.trim())), line: ln as u32 },
                    }
                };
                v.push(inst);
            }
            blocks.push(v);
        }
        let n = regs.borrow().m.len() as u32;
        Ok(Body { nregs: n, params, param_tys: ptys, blocks })
    }

    fn inst(&self, s: &str, regs: &std::cell::RefCell<RegMap>, labels: &HashMap<String, u32>) -> R<(Option<u32>, K)> {
        let mut p = P { t: lex(s), i: 0, m: self, regs: Some(regs) };
        let mut dst = None;
        if let (Some(Tok::Loc(n)), Some(Tok::P(b'='))) = (p.t.first(), p.t.get(1)) {
            dst = Some(regs.borrow_mut().get(n));
            p.i = 2;
        }
        let op = match p.next()? {
            Tok::Id(x) => x,
            x => return Err(format!("opcode {x:?}")),
        };
        let lab = |p: &mut P| -> R<u32> {
            if !p.eat_id("label") {
                return Err("label".into());
            }
            match p.next()? {
                Tok::Loc(n) => labels.get(n).copied().ok_or_else(|| format!("label {n}")),
                x => Err(format!("label {x:?}")),
            }
        };
        let bin = |o: BinOp, p: &mut P| -> R<K> {
            while let Some(Tok::Id(f)) = p.peek() {
                if is_ty_word(f) {
                    break;
                }
                p.i += 1;
            }
            let (t, a) = p.tval()?;
            p.exp_p(b',')?;
            let b = p.val(&t)?;
            Ok(K::Bin(o, t, a, b))
        };
        let k = match op {
            "add" => bin(BinOp::Add, &mut p)?,
            "sub" => bin(BinOp::Sub, &mut p)?,
            "mul" => bin(BinOp::Mul, &mut p)?,
            "udiv" => bin(BinOp::UDiv, &mut p)?,
            "sdiv" => bin(BinOp::SDiv, &mut p)?,
            "urem" => bin(BinOp::URem, &mut p)?,
            "srem" => bin(BinOp::SRem, &mut p)?,
            "shl" => bin(BinOp::Shl, &mut p)?,
            "lshr" => bin(BinOp::LShr, &mut p)?,
            "ashr" => bin(BinOp::AShr, &mut p)?,
            "and" => bin(BinOp::And, &mut p)?,
            "or" => bin(BinOp::Or, &mut p)?,
            "xor" => bin(BinOp::Xor, &mut p)?,
            "icmp" => {
                p.eat_id("samesign");
                let pr = match p.next()? {
                    Tok::Id("eq") => Pred::Eq,
                    Tok::Id("ne") => Pred::Ne,
                    Tok::Id("ugt") => Pred::Ugt,
                    Tok::Id("uge") => Pred::Uge,
                    Tok::Id("ult") => Pred::Ult,
                    Tok::Id("ule") => Pred::Ule,
                    Tok::Id("sgt") => Pred::Sgt,
                    Tok::Id("sge") => Pred::Sge,
                    Tok::Id("slt") => Pred::Slt,
                    Tok::Id("sle") => Pred::Sle,
                    x => return Err(format!("icmp {x:?}")),
                };
                p.eat_id("samesign");
                let (t, a) = p.tval()?;
                p.exp_p(b',')?;
                let b = p.val(&t)?;
                K::Icmp(pr, t, a, b)
            }
            "select" => {
                while let Some(Tok::Id(f)) = p.peek() {
                    if is_ty_word(f) {
                        break;
                    }
                    p.i += 1;
                }
                let (_, c) = p.tval()?;
                p.exp_p(b',')?;
                let (t, a) = p.tval()?;
                p.exp_p(b',')?;
                let (_, b) = p.tval()?;
                K::Select(t, c, a, b)
            }
            "phi" => {
                let t = p.ty()?;
                let mut v = Vec::new();
                loop {
                    p.exp_p(b'[')?;
                    let x = p.val(&t)?;
                    p.exp_p(b',')?;
                    let l = match p.next()? {
                        Tok::Loc(n) => *labels.get(n).ok_or_else(|| format!("phi label {n}"))?,
                        x => return Err(format!("phi {x:?}")),
                    };
                    p.exp_p(b']')?;
                    v.push((x, l));
                    if !p.eat_p(b',') {
                        break;
                    }
                    if !p.is_p(b'[') {
                        break;
                    }
                }
                K::Phi(v)
            }
            "alloca" => {
                p.eat_id("inalloca");
                let t = p.ty()?;
                let mut al = t.align();
                let mut n: Option<V> = None;
                while p.eat_p(b',') {
                    if p.eat_id("align") {
                        al = p.num()? as u64;
                    } else if p.is_ty() {
                        n = Some(p.tval()?.1);
                    } else {
                        break;
                    }
                }
                match n {
                    None => K::Alloca(t.size(), al),
                    Some(v) => K::AllocaDyn(t.size(), v, al),
                }
            }
            "load" => {
                p.eat_id("atomic");
                p.eat_id("volatile");
                let t = p.ty()?;
                p.exp_p(b',')?;
                let (_, a) = p.tval()?;
                let al = find_align(&mut p, &t);
                K::Load(t, a, al)
            }
            "store" => {
                p.eat_id("atomic");
                p.eat_id("volatile");
                let (t, v) = p.tval()?;
                p.exp_p(b',')?;
                let (_, a) = p.tval()?;
                let al = find_align(&mut p, &t);
                K::Store(t, v, a, al)
            }
            "getelementptr" => {
                while let Some(Tok::Id(f)) = p.peek() {
                    if is_ty_word(f) {
                        break;
                    }
                    let f = *f;
                    p.i += 1;
                    if f == "inrange" {
                        p.skip_parens()?;
                    }
                }
                let st = p.ty()?;
                p.exp_p(b',')?;
                let (bt, base) = p.tval()?;
                if bt != Ty::Ptr {
                    return Err("vector gep".into());
                }
                let mut off = 0i64;
                let mut terms = Vec::new();
                let mut cur = st.clone();
                let mut first = true;
                while p.eat_p(b',') {
                    if !p.is_ty() {
                        break;
                    }
                    let (it, iv) = p.tval()?;
                    let iw = match it {
                        Ty::Int(w) => w,
                        _ => return Err("gep index".into()),
                    };
                    let konst = match &iv {
                        V::C(c) => match &**c {
                            Cst::Int(v, w) => Some(sx(*v, *w)),
                            Cst::Zero(_) => Some(0),
                            _ => return Err("gep index constant".into()),
                        },
                        _ => None,
                    };
                    if first {
                        first = false;
                        match konst {
                            Some(x) => off += x * st.size() as i64,
                            None => terms.push((iv, iw, st.size() as i64)),
                        }
                    } else {
                        match konst {
                            Some(x) => {
                                let (o, n) = step(&cur, x)?;
                                off += o;
                                cur = n;
                            }
                            None => {
                                let e = match &cur {
                                    Ty::Arr(_, e) | Ty::Vec(_, e) => (**e).clone(),
                                    _ => return Err("gep into struct".into()),
                                };
                                terms.push((iv, iw, e.size() as i64));
                                cur = e;
                            }
                        }
                    }
                }
                K::Gep(base, off, terms)
            }
            "extractvalue" => {
                let (_, v) = p.tval()?;
                let mut ix = Vec::new();
                while p.eat_p(b',') {
                    if let Some(Tok::Num(_)) = p.peek() {
                        ix.push(p.num()? as u32)
                    } else {
                        break;
                    }
                }
                K::ExtractValue(v, ix)
            }
            "insertvalue" => {
                let (_, v) = p.tval()?;
                p.exp_p(b',')?;
                let (_, x) = p.tval()?;
                let mut ix = Vec::new();
                while p.eat_p(b',') {
                    if let Some(Tok::Num(_)) = p.peek() {
                        ix.push(p.num()? as u32)
                    } else {
                        break;
                    }
                }
                K::InsertValue(v, x, ix)
            }
            "extractelement" => {
                let (_, v) = p.tval()?;
                p.exp_p(b',')?;
                let (_, i) = p.tval()?;
                K::ExtractElt(v, i)
            }
            "insertelement" => {
                let (_, v) = p.tval()?;
                p.exp_p(b',')?;
                let (_, x) = p.tval()?;
                p.exp_p(b',')?;
                let (_, i) = p.tval()?;
                K::InsertElt(v, x, i)
            }
            "shufflevector" => {
                let (t, a) = p.tval()?;
                p.exp_p(b',')?;
                let (_, b) = p.tval()?;
                p.exp_p(b',')?;
                let mt = p.ty()?;
                let n = match mt {
                    Ty::Vec(n, _) => n as usize,
                    _ => return Err("shuffle mask".into()),
                };
                let m = p.cst(&mt)?;
                let mut mask = Vec::new();
                match m {
                    Cst::Vec(l) => {
                        for c in l {
                            match c {
                                Cst::Int(v, _) => mask.push(v as i32),
                                Cst::Undef(_) => mask.push(-1),
                                _ => return Err("shuffle mask".into()),
                            }
                        }
                    }
                    Cst::Zero(_) => mask = vec![0; n],
                    Cst::Undef(_) => mask = vec![-1; n],
                    _ => return Err("shuffle mask".into()),
                }
                K::Shuffle(a, b, mask, t)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "addrspacecast" => {
                while let Some(Tok::Id(f)) = p.peek() {
                    if is_ty_word(f) {
                        break;
                    }
                    p.i += 1;
                }
                let (t, v) = p.tval()?;
                if !p.eat_id("to") {
                    return Err("cast".into());
                }
                let t2 = p.ty()?;
                let o = match op {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "bitcast" => CastOp::Bitcast,
                    _ => CastOp::PtrInt,
                };
                K::Cast(o, t, t2, v)
            }
            "freeze" => K::Freeze(p.tval()?.1),
            "br" => {
                if p.is_id("label") {
                    K::Br(lab(&mut p)?)
                } else {
                    let (_, c) = p.tval()?;
                    p.exp_p(b',')?;
                    let a = lab(&mut p)?;
                    p.exp_p(b',')?;
                    let b = lab(&mut p)?;
                    K::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = p.tval()?;
                p.exp_p(b',')?;
                let d = lab(&mut p)?;
                p.exp_p(b'[')?;
                let mut cs = Vec::new();
                while !p.eat_p(b']') {
                    let t2 = p.ty()?;
                    let c = match p.cst(&t2)? {
                        Cst::Int(v, _) => v,
                        _ => return Err("switch case".into()),
                    };
                    p.exp_p(b',')?;
                    cs.push((c, lab(&mut p)?));
                }
                let _ = t;
                K::Switch(v, d, cs)
            }
            "ret" => {
                if p.is_id("void") {
                    K::Ret(None)
                } else {
                    K::Ret(Some(p.tval()?))
                }
            }
            "unreachable" => K::Unreachable,
            "call" | "tail" | "musttail" | "notail" => {
                if op != "call" {
                    p.eat_id("call");
                }
                K::Call(self.call(&mut p)?)
            }
            "invoke" => {
                let c = self.call(&mut p)?;
                while !p.is_id("to") {
                    p.next()?;
                }
                p.i += 1;
                K::Invoke(c, lab(&mut p)?)
            }
            "fence" => K::Nop,
            "cmpxchg" => {
                p.eat_id("weak");
                p.eat_id("volatile");
                let (_, a) = p.tval()?;
                p.exp_p(b',')?;
                let (t, e) = p.tval()?;
                p.exp_p(b',')?;
                let (_, n) = p.tval()?;
                K::CmpXchg(t, a, e, n)
            }
            "atomicrmw" => {
                p.eat_id("volatile");
                let o = match p.next()? {
                    Tok::Id(x) => x.to_string(),
                    x => return Err(format!("rmw {x:?}")),
                };
                let (_, a) = p.tval()?;
                p.exp_p(b',')?;
                let (t, v) = p.tval()?;
                K::AtomicRmw(o, t, a, v)
            }
            _ => K::Unsupported(format!("instruction: {}", s.trim())),
        };
        Ok((dst, k))
    }

    fn call(&self, p: &mut P) -> R<Call> {
        p.attrs()?;
        // fast-math etc. were skipped as attributes
        let ret = p.ty()?;
        // function type for varargs: ret (..)
        if p.is_p(b'(') {
            p.skip_parens()?;
        }
        let callee = if p.eat_id("asm") {
            while let Some(Tok::Id(_)) = p.peek() {
                p.i += 1;
            }
            match p.next()? {
                Tok::Str(s) => Callee::Asm(s.to_string()),
                x => return Err(format!("asm {x:?}")),
            }
        } else {
            Callee::Val(p.val(&Ty::Ptr)?)
        };
        if let Callee::Asm(_) = callee {
            p.exp_p(b',')?;
            p.next()?;
        }
        p.exp_p(b'(')?;
        let mut args = Vec::new();
        if !p.eat_p(b')') {
            loop {
                let t = p.ty()?;
                if t == Ty::Other {
                    // metadata argument
                    let mut d = 0;
                    while !(d == 0 && (p.is_p(b',') || p.is_p(b')'))) {
                        match p.next()? {
                            Tok::P(b'(') => d += 1,
                            Tok::P(b')') => d -= 1,
                            _ => {}
                        }
                    }
                } else {
                    p.attrs()?;
                    let v = p.val(&t)?;
                    args.push((t, v));
                }
                if p.eat_p(b')') {
                    break;
                }
                p.exp_p(b',')?;
            }
        }
        let mut nr = false;
        let save = p.i;
        while let Some(t) = p.peek() {
            match t {
                Tok::Att(n) => {
                    if let Some((a, _)) = self.attrs.get(*n) {
                        nr |= *a;
                    }
                }
                Tok::Id("noreturn") => nr = true,
                Tok::Id("to") => break,
                _ => {}
            }
            p.i += 1;
        }
        p.i = save;
        Ok(Call { callee, ret, args, noreturn: nr })
    }
}

fn find_align(p: &mut P, t: &Ty) -> u64 {
    let mut j = p.i;
    while j + 1 < p.t.len() {
        if let (Tok::Id("align"), Tok::Num(n)) = (&p.t[j], &p.t[j + 1]) {
            return n.parse().unwrap_or(1);
        }
        j += 1;
    }
    t.align()
}
