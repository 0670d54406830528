//! Hash-consed bit-vector terms with aggressive local normalisation.
//! Width-1 terms double as booleans.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    #[inline]
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    #[inline]
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    #[inline]
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    #[inline]
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    #[inline]
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    #[inline]
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    #[inline]
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    #[inline]
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
}
pub type FxB = BuildHasherDefault<Fx>;
pub type FMap<K, V> = HashMap<K, V, FxB>;

pub type T = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const(u128),
    Var(u32),
    Not(T),
    And(T, T),
    Or(T, T),
    Xor(T, T),
    Add(T, T),
    Sub(T, T),
    Mul(T, T),
    UDiv(T, T),
    URem(T, T),
    SDiv(T, T),
    SRem(T, T),
    Shl(T, T),
    LShr(T, T),
    AShr(T, T),
    /// high to low
    Concat(Box<[T]>),
    /// (term, low bit); width is the node's width
    Extract(T, u16),
    Eq(T, T),
    Ult(T, T),
    Slt(T, T),
    Ite(T, T, T),
    /// (table id, index)
    Lut(u32, T),
}

#[derive(Clone)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    /// bits possibly one / certainly one (widths up to 128; wider: all unknown)
    pub may1: u128,
    pub must1: u128,
    pub lo: u128,
    pub hi: u128,
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}

pub struct Table {
    pub data: Vec<u128>,
    pub w: u16,
}

pub struct VarInfo {
    pub name: String,
    pub w: u16,
    pub undef: bool,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    intern: FMap<(Op, u16), T>,
    pub tables: Vec<Table>,
    table_ix: HashMap<(Vec<u128>, u16), u32>,
    pub vars: Vec<VarInfo>,
    byte_consts: [T; 256],
    pub tt: T,
    pub ff: T,
}

impl Default for Ctx {
    fn default() -> Self {
        Self::new()
    }
}

impl Ctx {
    pub fn new() -> Self {
        let mut c = Ctx {
            nodes: Vec::new(),
            intern: FMap::default(),
            tables: Vec::new(),
            table_ix: HashMap::new(),
            vars: Vec::new(),
            byte_consts: [0; 256],
            tt: 0,
            ff: 0,
        };
        c.ff = c.konst(0, 1);
        c.tt = c.konst(1, 1);
        for i in 0..256u32 {
            let t = c.raw(Op::Const(i as u128), 8);
            c.byte_consts[i as usize] = t;
        }
        c
    }
    #[inline]
    pub fn w(&self, t: T) -> u16 {
        self.nodes[t as usize].w
    }
    #[inline]
    pub fn n(&self, t: T) -> &Node {
        &self.nodes[t as usize]
    }
    #[inline]
    pub fn op(&self, t: T) -> &Op {
        &self.nodes[t as usize].op
    }
    #[inline]
    pub fn cv(&self, t: T) -> Option<u128> {
        match self.nodes[t as usize].op {
            Op::Const(v) => Some(v),
            _ => None,
        }
    }
    pub fn is_zero(&self, t: T) -> bool {
        match self.op(t) {
            Op::Const(v) => *v == 0,
            Op::Concat(p) => self.w(t) > 128 && p.iter().all(|x| self.cv(*x) == Some(0)),
            _ => false,
        }
    }

    fn raw(&mut self, op: Op, w: u16) -> T {
        if let Some(&t) = self.intern.get(&(op.clone(), w)) {
            return t;
        }
        let m = mask(w);
        let (mut may1, mut must1, mut lo, mut hi) = (m, 0u128, 0u128, m);
        let nn = |t: T| &self.nodes[t as usize];
        match &op {
            Op::Const(v) => {
                may1 = *v;
                must1 = *v;
                lo = *v;
                hi = *v;
            }
            Op::Not(a) if w <= 128 => {
                let a = nn(*a);
                may1 = !a.must1 & m;
                must1 = !a.may1 & m;
                lo = m - a.hi;
                hi = m - a.lo;
            }
            Op::And(a, b) if w <= 128 => {
                let (a, b) = (nn(*a), nn(*b));
                may1 = a.may1 & b.may1;
                must1 = a.must1 & b.must1;
                hi = a.hi.min(b.hi);
            }
            Op::Or(a, b) if w <= 128 => {
                let (a, b) = (nn(*a), nn(*b));
                may1 = a.may1 | b.may1;
                must1 = a.must1 | b.must1;
                lo = a.lo.max(b.lo);
            }
            Op::Xor(a, b) if w <= 128 => {
                let (a, b) = (nn(*a), nn(*b));
                may1 = (a.may1 | b.may1) & !(a.must1 & b.must1);
                must1 = (a.must1 & !b.may1) | (b.must1 & !a.may1);
            }
            Op::Add(a, b) if w <= 120 => {
                let (a, b) = (nn(*a), nn(*b));
                if a.hi + b.hi <= m {
                    lo = a.lo + b.lo;
                    hi = a.hi + b.hi;
                } else if a.lo + b.lo > m {
                    lo = a.lo + b.lo - m - 1;
                    hi = a.hi + b.hi - m - 1;
                }
            }
            Op::Sub(a, b) if w <= 120 => {
                let (a, b) = (nn(*a), nn(*b));
                if a.lo >= b.hi {
                    lo = a.lo - b.hi;
                    hi = a.hi - b.lo;
                } else if a.hi < b.lo {
                    lo = a.lo + m + 1 - b.hi;
                    hi = a.hi + m + 1 - b.lo;
                }
            }
            Op::Mul(a, b) if w <= 64 => {
                let (a, b) = (nn(*a), nn(*b));
                if let Some(p) = a.hi.checked_mul(b.hi) {
                    if p <= m {
                        hi = p;
                        lo = a.lo * b.lo;
                    }
                }
                let tz = a.may1.trailing_zeros().min(127) + b.may1.trailing_zeros().min(127);
                if tz >= w as u32 {
                    may1 = 0
                } else {
                    may1 = m & !((1u128 << tz) - 1)
                }
            }
            Op::UDiv(a, b) if w <= 128 => {
                let (a, b) = (nn(*a), nn(*b));
                if b.lo > 0 {
                    lo = a.lo / b.hi;
                    hi = a.hi / b.lo;
                }
            }
            Op::URem(a, b) if w <= 128 => {
                let (a, b) = (nn(*a), nn(*b));
                hi = a.hi;
                if b.lo > 0 {
                    hi = hi.min(b.hi - 1);
                }
            }
            Op::LShr(a, _) if w <= 128 => {
                let a = nn(*a);
                hi = a.hi;
            }
            Op::Concat(p) if w <= 128 => {
                may1 = 0;
                lo = 0;
                hi = 0;
                for &x in p.iter() {
                    let x = nn(x);
                    may1 = (may1 << x.w) | x.may1;
                    must1 = (must1 << x.w) | x.must1;
                    lo = (lo << x.w) | x.lo;
                    hi = (hi << x.w) | x.hi;
                }
            }
            Op::Extract(a, l) => {
                let a = nn(*a);
                if a.w <= 128 {
                    may1 = (a.may1 >> l) & m;
                    must1 = (a.must1 >> l) & m;
                    if (a.hi >> l) <= m {
                        lo = a.lo >> l;
                        hi = a.hi >> l;
                    }
                }
            }
            Op::Ite(_, a, b) if w <= 128 => {
                let (a, b) = (nn(*a), nn(*b));
                may1 = a.may1 | b.may1;
                must1 = a.must1 & b.must1;
                lo = a.lo.min(b.lo);
                hi = a.hi.max(b.hi);
            }
            Op::Lut(tb, ix) => {
                let ix = nn(*ix);
                let t = &self.tables[*tb as usize];
                may1 = 0;
                must1 = m;
                lo = m;
                hi = 0;
                for i in 0..t.data.len() {
                    if (i as u128) < ix.lo || (i as u128) > ix.hi || (i as u128) & !ix.may1 != 0 || (i as u128) & ix.must1 != ix.must1 {
                        continue;
                    }
                    let v = t.data[i];
                    may1 |= v;
                    must1 &= v;
                    lo = lo.min(v);
                    hi = hi.max(v);
                }
                if hi < lo {
                    lo = 0;
                    hi = m;
                    may1 = m;
                    must1 = 0;
                }
            }
            _ => {}
        }
        if w <= 128 {
            // combine bit and range knowledge
            lo = lo.max(must1);
            hi = hi.min(may1);
            if hi < m && hi != 0 {
                let lz = 128 - hi.leading_zeros();
                may1 &= mask(lz as u16);
            } else if hi == 0 {
                may1 = 0;
            }
        } else {
            may1 = !0;
            must1 = 0;
            lo = 0;
            hi = !0;
        }
        let t = self.nodes.len() as T;
        self.nodes.push(Node { op: op.clone(), w, may1, must1, lo, hi });
        self.intern.insert((op, w), t);
        if w <= 128 && lo == hi && !matches!(self.nodes[t as usize].op, Op::Const(_)) {
            let c = self.konst(lo, w);
            let (op, w) = (self.nodes[t as usize].op.clone(), w);
            self.intern.insert((op, w), c);
            return c;
        }
        t
    }

    pub fn konst(&mut self, v: u128, w: u16) -> T {
        if w > 128 {
            let mut parts = Vec::new();
            let mut left = w;
            let l = self.konst(v, 128);
            left -= 128;
            while left > 0 {
                let k = left.min(128);
                parts.push(self.konst(0, k));
                left -= k;
            }
            parts.reverse();
            parts.push(l);
            return self.raw(Op::Concat(parts.into_boxed_slice()), w);
        }
        self.raw(Op::Const(v & mask(w)), w)
    }
    #[inline]
    pub fn byte(&self, b: u8) -> T {
        self.byte_consts[b as usize]
    }
    pub fn boolc(&self, b: bool) -> T {
        if b {
            self.tt
        } else {
            self.ff
        }
    }
    pub fn var(&mut self, name: String, w: u16, undef: bool) -> T {
        let id = self.vars.len() as u32;
        self.vars.push(VarInfo { name, w, undef });
        self.raw(Op::Var(id), w)
    }
    pub fn var_term(&mut self, id: u32) -> T {
        let w = self.vars[id as usize].w;
        self.raw(Op::Var(id), w)
    }
    pub fn table(&mut self, data: Vec<u128>, w: u16) -> u32 {
        if let Some(&i) = self.table_ix.get(&(data.clone(), w)) {
            return i;
        }
        let i = self.tables.len() as u32;
        self.table_ix.insert((data.clone(), w), i);
        self.tables.push(Table { data, w });
        i
    }
    /// table length need not be a power of two; indices outside read as 0.
    pub fn lut(&mut self, data: Vec<u128>, w: u16, idx: T) -> T {
        if let Some(i) = self.cv(idx) {
            let v = data.get(i as usize).copied().unwrap_or(0);
            return self.konst(v, w);
        }
        if let Some(&f) = data.first() {
            let full = (data.len() as u128) > self.n(idx).hi;
            if full && data.iter().all(|x| *x == f) {
                return self.konst(f, w);
            }
        }
        if let Op::Ite(c, a, b) = *self.op(idx) {
            if self.cv(a).is_some() || self.cv(b).is_some() {
                let x = self.lut(data.clone(), w, a);
                let y = self.lut(data, w, b);
                return self.ite(c, x, y);
            }
        }
        // narrow the index to the bits the table needs
        let hi = self.n(idx).hi;
        let mut bits = 128 - hi.leading_zeros() as u16;
        if bits == 0 {
            bits = 1
        }
        let idx2 = if bits < self.w(idx) { self.extract(idx, 0, bits) } else { idx };
        // low/high known bits could be used to shrink tables; not needed
        let mut d = data;
        let need = 1usize << bits.min(20);
        if d.len() > need {
            d.truncate(need);
        }
        if w == 1 && d.len() <= 2 && bits == 1 {
            let a = d.first().copied().unwrap_or(0);
            let b = d.get(1).copied().unwrap_or(0);
            let a = self.konst(a, w);
            let b = self.konst(b, w);
            return self.ite(idx2, b, a);
        }
        let tb = self.table(d, w);
        self.raw(Op::Lut(tb, idx2), w)
    }

    pub fn not(&mut self, a: T) -> T {
        let w = self.w(a);
        match self.op(a).clone() {
            Op::Const(v) => self.konst(!v, w),
            Op::Not(x) => x,
            Op::Concat(p) => {
                let q: Vec<T> = p.iter().map(|x| self.not(*x)).collect();
                self.concat(&q)
            }
            Op::Ite(c, x, y) if self.cv(x).is_some() && self.cv(y).is_some() => {
                let x = self.not(x);
                let y = self.not(y);
                self.ite(c, x, y)
            }
            _ => self.raw(Op::Not(a), w),
        }
    }

    /// segment boundaries helper: widths of concat parts from low to high
    fn parts_lo(&self, t: T) -> Vec<(T, u16)> {
        match self.op(t) {
            Op::Concat(p) => p.iter().rev().map(|&x| (x, self.w(x))).collect(),
            _ => vec![(t, self.w(t))],
        }
    }

    fn split_at(&mut self, t: T, cuts: &[u16]) -> Vec<T> {
        // cuts: ascending positions, last == width
        let mut r = Vec::with_capacity(cuts.len());
        let mut l = 0;
        for &c in cuts {
            r.push(self.extract(t, l, c - l));
            l = c;
        }
        r
    }

    fn cuts_of(&self, t: T) -> Vec<u16> {
        let mut v = Vec::new();
        let mut s = 0;
        for (_, w) in self.parts_lo(t) {
            s += w;
            v.push(s);
        }
        v
    }
    fn const_runs(v: u128, w: u16) -> Vec<u16> {
        let mut r = Vec::new();
        let mut i = 0u16;
        while i < w {
            let b = (v >> i) & 1;
            let mut j = i + 1;
            while j < w && (v >> j) & 1 == b {
                j += 1;
            }
            r.push(j);
            i = j;
        }
        r
    }
    fn merge_cuts(a: &[u16], b: &[u16]) -> Vec<u16> {
        let mut v: Vec<u16> = a.iter().chain(b.iter()).copied().collect();
        v.sort_unstable();
        v.dedup();
        v
    }

    pub fn and(&mut self, a: T, b: T) -> T {
        self.bitwise(0, a, b)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        self.bitwise(1, a, b)
    }
    pub fn xor(&mut self, a: T, b: T) -> T {
        self.bitwise(2, a, b)
    }

    fn bitwise(&mut self, k: u8, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return if k == 2 { self.konst(0, w) } else { a };
        }
        // constant to the right, else ordered
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let Some(bv) = self.cv(b) {
            if let Some(av) = self.cv(a) {
                let v = match k {
                    0 => av & bv,
                    1 => av | bv,
                    _ => av ^ bv,
                };
                return self.konst(v, w);
            }
            let m = mask(w);
            if bv == 0 {
                return if k == 0 { b } else { a };
            }
            if bv == m {
                return match k {
                    0 => a,
                    1 => b,
                    _ => self.not(a),
                };
            }
            if k == 0 && self.n(a).may1 & !bv == 0 {
                return a;
            }
            if k == 0 && self.n(a).may1 & bv == 0 {
                return self.konst(0, w);
            }
            if k == 1 && self.n(a).must1 & bv == bv {
                return a;
            }
        } else if w > 1 {
            // complement
            if let Op::Not(x) = *self.op(a) {
                if x == b {
                    return self.konst(if k == 0 { 0 } else { mask(w) }, w);
                }
            }
            if let Op::Not(x) = *self.op(b) {
                if x == a {
                    return self.konst(if k == 0 { 0 } else { mask(w) }, w);
                }
            }
        }
        if w == 1 {
            return self.bool_bin(k, a, b);
        }
        // segment-wise when the structure allows it
        let a_cat = matches!(self.op(a), Op::Concat(_));
        let b_cat = matches!(self.op(b), Op::Concat(_));
        let bc = self.cv(b);
        if a_cat || b_cat || (bc.is_some() && k != 2) {
            let ca = self.cuts_of(a);
            let cb = match bc {
                Some(v) if k != 2 => Self::const_runs(v, w),
                _ => self.cuts_of(b),
            };
            let cuts = Self::merge_cuts(&ca, &cb);
            if cuts.len() > 1 {
                let pa = self.split_at(a, &cuts);
                let pb = self.split_at(b, &cuts);
                // worth it only if some segment gets a constant operand or is equal
                let worth = bc.is_some()
                    || pa.iter().zip(&pb).any(|(x, y)| self.cv(*x).is_some() || self.cv(*y).is_some() || x == y)
                    || (a_cat && b_cat && ca == cb);
                if worth {
                    let mut q: Vec<T> = Vec::with_capacity(cuts.len());
                    for (x, y) in pa.iter().zip(&pb) {
                        q.push(self.bitwise(k, *x, *y));
                    }
                    q.reverse();
                    return self.concat(&q);
                }
            }
        }
        // Ite masks: and(ite(c,ones,0), x) -> ite(c,x,0)
        for (x, y) in [(a, b), (b, a)] {
            if let Op::Ite(c, p, q) = *self.op(x) {
                if let (Some(pv), Some(qv)) = (self.cv(p), self.cv(q)) {
                    let m = mask(w);
                    if bc.is_some() || ((pv == 0 || pv == m) && (qv == 0 || qv == m)) {
                        let l = self.bitwise(k, p, y);
                        let r = self.bitwise(k, q, y);
                        return self.ite(c, l, r);
                    }
                }
            }
        }
        // and/or with nested constant
        if let Some(bv) = bc {
            match (k, self.op(a).clone()) {
                (0, Op::And(x, y)) | (1, Op::Or(x, y)) | (2, Op::Xor(x, y)) => {
                    if let Some(yv) = self.cv(y) {
                        let v = match k {
                            0 => yv & bv,
                            1 => yv | bv,
                            _ => yv ^ bv,
                        };
                        let c = self.konst(v, w);
                        return self.bitwise(k, x, c);
                    }
                }
                (_, Op::Lut(tb, ix)) => {
                    let d: Vec<u128> = self.tables[tb as usize]
                        .data
                        .iter()
                        .map(|v| match k {
                            0 => v & bv,
                            1 => v | bv,
                            _ => v ^ bv,
                        })
                        .collect();
                    if (d.len() as u128) > self.n(ix).hi {
                        return self.lut(d, w, ix);
                    }
                }
                _ => {}
            }
        }
        // absorption
        for (x, y) in [(a, b), (b, a)] {
            match (k, self.op(x)) {
                (0, Op::And(p, q)) | (1, Op::Or(p, q)) if *p == y || *q == y => return x,
                (0, Op::Or(p, q)) | (1, Op::And(p, q)) if *p == y || *q == y => return y,
                (2, Op::Xor(p, q)) if *p == y => return *q,
                (2, Op::Xor(p, q)) if *q == y => return *p,
                _ => {}
            }
        }
        let (a, b) = if bc.is_none() && a > b { (b, a) } else { (a, b) };
        self.raw(
            match k {
                0 => Op::And(a, b),
                1 => Op::Or(a, b),
                _ => Op::Xor(a, b),
            },
            w,
        )
    }

    fn bool_bin(&mut self, k: u8, a: T, b: T) -> T {
        // neither const
        let na = matches!(*self.op(a), Op::Not(x) if x == b);
        let nb = matches!(*self.op(b), Op::Not(x) if x == a);
        if na || nb {
            return if k == 0 { self.ff } else { self.tt };
        }
        if k == 2 {
            // pull negations out
            if let Op::Not(x) = *self.op(a) {
                let t = self.xor(x, b);
                return self.not(t);
            }
            if let Op::Not(y) = *self.op(b) {
                let t = self.xor(a, y);
                return self.not(t);
            }
        }
        for (x, y) in [(a, b), (b, a)] {
            match (k, self.op(x)) {
                (0, Op::And(p, q)) | (1, Op::Or(p, q)) if *p == y || *q == y => return x,
                (0, Op::Or(p, q)) | (1, Op::And(p, q)) if *p == y || *q == y => return y,
                _ => {}
            }
        }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        self.raw(
            match k {
                0 => Op::And(a, b),
                1 => Op::Or(a, b),
                _ => Op::Xor(a, b),
            },
            1,
        )
    }

    pub fn concat(&mut self, parts: &[T]) -> T {
        if parts.len() == 1 {
            return parts[0];
        }
        let mut flat: Vec<T> = Vec::with_capacity(parts.len());
        for &p in parts {
            if let Op::Concat(q) = self.op(p) {
                let q = q.clone();
                for &x in q.iter() {
                    self.push_part(&mut flat, x);
                }
            } else {
                self.push_part(&mut flat, p);
            }
        }
        if flat.len() == 1 {
            return flat[0];
        }
        let w: u32 = flat.iter().map(|x| self.w(*x) as u32).sum();
        self.raw(Op::Concat(flat.into_boxed_slice()), w as u16)
    }
    fn push_part(&mut self, flat: &mut Vec<T>, x: T) {
        if let Some(&p) = flat.last() {
            let (pw, xw) = (self.w(p), self.w(x));
            if pw + xw <= 128 {
                if let (Some(a), Some(b)) = (self.cv(p), self.cv(x)) {
                    let c = self.konst((a << xw) | b, pw + xw);
                    flat.pop();
                    // may merge again with previous constant only if the width allows; previous
                    // constants were already merged, so just push
                    flat.push(c);
                    return;
                }
            }
            if let (Op::Extract(a, la), Op::Extract(b, lb)) = (self.op(p), self.op(x)) {
                if a == b && *la == *lb + xw {
                    let (a, lb) = (*a, *lb);
                    flat.pop();
                    let e = self.extract(a, lb, pw + xw);
                    if let Op::Concat(q) = self.op(e) {
                        let q = q.clone();
                        for &y in q.iter() {
                            flat.push(y);
                        }
                    } else {
                        self.push_part(flat, e);
                    }
                    return;
                }
            }
            if let (Op::Ite(c, p1, p2), Op::Ite(d, x1, x2)) = (self.op(p), self.op(x)) {
                if c == d && pw + xw <= 128 {
                    let (c, p1, p2, x1, x2) = (*c, *p1, *p2, *x1, *x2);
                    if self.cv(p1).is_some() && self.cv(p2).is_some() && self.cv(x1).is_some() && self.cv(x2).is_some() {
                        let l = self.concat(&[p1, x1]);
                        let r = self.concat(&[p2, x2]);
                        flat.pop();
                        let e = self.ite(c, l, r);
                        self.push_part(flat, e);
                        return;
                    }
                }
            }
            // pieces of the same bitwise op over adjacent extracts re-merge through Lut/Add? left as is
            if let (Op::Lut(ta, ia), Op::Lut(tb, ib)) = (self.op(p), self.op(x)) {
                if ia == ib && pw + xw <= 64 && self.tables[*ta as usize].data.len() == self.tables[*tb as usize].data.len() {
                    let (ta, tb, ia) = (*ta, *tb, *ia);
                    let d: Vec<u128> = self.tables[ta as usize].data.iter().zip(&self.tables[tb as usize].data).map(|(a, b)| (a << xw) | b).collect();
                    flat.pop();
                    let e = self.lut(d, pw + xw, ia);
                    self.push_part(flat, e);
                    return;
                }
            }
        }
        flat.push(x);
    }

    pub fn zext(&mut self, a: T, w: u16) -> T {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let z = self.konst(0, w - aw);
        self.concat(&[z, a])
    }
    pub fn sext(&mut self, a: T, w: u16) -> T {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let msb = self.extract(a, aw - 1, 1);
        let o = self.konst(mask((w - aw).min(128)), w - aw);
        let z = self.konst(0, w - aw);
        let h = self.ite(msb, o, z);
        self.concat(&[h, a])
    }

    pub fn extract(&mut self, a: T, lo: u16, w: u16) -> T {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw, "extract {lo}+{w} of {aw}");
        if w == aw {
            return a;
        }
        if aw <= 128 {
            let n = self.n(a);
            let m = mask(w);
            let (my, mu) = ((n.may1 >> lo) & m, (n.must1 >> lo) & m);
            if my == mu {
                return self.konst(my, w);
            }
        }
        match self.op(a).clone() {
            Op::Const(v) => self.konst(v >> lo, w),
            Op::Extract(b, l) => self.extract(b, l + lo, w),
            Op::Concat(p) => {
                let mut pos = 0u16;
                let mut out: Vec<T> = Vec::new();
                for &x in p.iter().rev() {
                    let xw = self.w(x);
                    let s = pos.max(lo);
                    let e = (pos + xw).min(lo + w);
                    if s < e {
                        out.push(self.extract(x, s - pos, e - s));
                    }
                    pos += xw;
                }
                out.reverse();
                self.concat(&out)
            }
            Op::Ite(c, x, y) => {
                let x = self.extract(x, lo, w);
                let y = self.extract(y, lo, w);
                self.ite(c, x, y)
            }
            Op::Not(x) => {
                let x = self.extract(x, lo, w);
                self.not(x)
            }
            Op::And(x, y) => {
                let x = self.extract(x, lo, w);
                let y = self.extract(y, lo, w);
                self.and(x, y)
            }
            Op::Or(x, y) => {
                let x = self.extract(x, lo, w);
                let y = self.extract(y, lo, w);
                self.or(x, y)
            }
            Op::Xor(x, y) => {
                let x = self.extract(x, lo, w);
                let y = self.extract(y, lo, w);
                self.xor(x, y)
            }
            Op::Add(x, y) if lo == 0 => {
                let x = self.extract(x, 0, w);
                let y = self.extract(y, 0, w);
                self.add(x, y)
            }
            Op::Sub(x, y) if lo == 0 => {
                let x = self.extract(x, 0, w);
                let y = self.extract(y, 0, w);
                self.sub(x, y)
            }
            Op::Mul(x, y) if lo == 0 => {
                let x = self.extract(x, 0, w);
                let y = self.extract(y, 0, w);
                self.mul(x, y)
            }
            Op::Add(x, y) if lo > 0 && lo + w < aw => {
                // drop the high bits first
                let x = self.extract(x, 0, lo + w);
                let y = self.extract(y, 0, lo + w);
                let s = self.add(x, y);
                self.extract(s, lo, w)
            }
            Op::Sub(x, y) if lo > 0 && lo + w < aw => {
                let x = self.extract(x, 0, lo + w);
                let y = self.extract(y, 0, lo + w);
                let s = self.sub(x, y);
                self.extract(s, lo, w)
            }
            Op::Lut(tb, ix) => {
                let d: Vec<u128> = self.tables[tb as usize].data.iter().map(|v| (v >> lo) & mask(w)).collect();
                self.lut(d, w, ix)
            }
            _ => self.raw(Op::Extract(a, lo), w),
        }
    }

    /// significant bits of the value
    fn bits(&self, t: T) -> u16 {
        128 - self.n(t).may1.leading_zeros() as u16
    }

    pub fn add(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let Some(bv) = self.cv(b) {
            if bv == 0 {
                return a;
            }
            match self.op(a).clone() {
                Op::Const(av) => return self.konst(av.wrapping_add(bv), w),
                Op::Add(x, y) => {
                    if let Some(yv) = self.cv(y) {
                        let c = self.konst(yv.wrapping_add(bv), w);
                        return self.add(x, c);
                    }
                }
                Op::Ite(c, x, y) if self.cv(x).is_some() && self.cv(y).is_some() => {
                    let x = self.add(x, b);
                    let y = self.add(y, b);
                    return self.ite(c, x, y);
                }
                Op::Lut(tb, ix) => {
                    let d: Vec<u128> = self.tables[tb as usize].data.iter().map(|v| v.wrapping_add(bv) & mask(w)).collect();
                    if (d.len() as u128) > self.n(ix).hi {
                        return self.lut(d, w, ix);
                    }
                }
                _ => {}
            }
        }
        if w <= 128 {
            if self.n(a).may1 & self.n(b).may1 == 0 {
                return self.or(a, b);
            }
            // common trailing part where one side is zero
            let tz = self.n(a).may1.trailing_zeros().max(self.n(b).may1.trailing_zeros()) as u16;
            if tz > 0 && tz < w {
                let (l, other) = if self.n(a).may1.trailing_zeros() as u16 == tz { (b, a) } else { (a, b) };
                let low = self.extract(l, 0, tz);
                let h1 = self.extract(l, tz, w - tz);
                let h2 = self.extract(other, tz, w - tz);
                let h = self.add(h1, h2);
                return self.concat(&[h, low]);
            }
            // narrow
            let nb = self.bits(a).max(self.bits(b)) + 1;
            if nb < w {
                let x = self.extract(a, 0, nb);
                let y = self.extract(b, 0, nb);
                let s = self.add(x, y);
                return self.zext(s, w);
            }
        }
        let (a, b) = if self.cv(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.raw(Op::Add(a, b), w)
    }
    pub fn neg(&mut self, a: T) -> T {
        let w = self.w(a);
        let z = self.konst(0, w);
        self.sub(z, a)
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return self.konst(0, w);
        }
        if let Some(bv) = self.cv(b) {
            let c = self.konst(bv.wrapping_neg(), w);
            return self.add(a, c);
        }
        if let (Some(av), Op::Ite(c, x, y)) = (self.cv(a), self.op(b).clone()) {
            if let (Some(xv), Some(yv)) = (self.cv(x), self.cv(y)) {
                let x = self.konst(av.wrapping_sub(xv), w);
                let y = self.konst(av.wrapping_sub(yv), w);
                return self.ite(c, x, y);
            }
        }
        if let Op::Add(x, y) = *self.op(a) {
            if x == b {
                return y;
            }
            if y == b {
                return x;
            }
        }
        if w <= 128 && self.n(b).may1 & !self.n(a).must1 == 0 {
            return self.xor(a, b);
        }
        // narrow when no borrow is possible
        if w <= 120 && self.n(a).lo >= self.n(b).hi {
            let nb = self.bits(a).max(self.bits(b)).max(1);
            if nb < w {
                let x = self.extract(a, 0, nb);
                let y = self.extract(b, 0, nb);
                let s = self.sub(x, y);
                return self.zext(s, w);
            }
        }
        self.raw(Op::Sub(a, b), w)
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let Some(bv) = self.cv(b) {
            if let Some(av) = self.cv(a) {
                return self.konst(av.wrapping_mul(bv), w);
            }
            if bv == 0 {
                return b;
            }
            if bv == 1 {
                return a;
            }
            if bv.is_power_of_two() {
                return self.shl_c(a, bv.trailing_zeros() as u16);
            }
            if let Op::Ite(c, x, y) = *self.op(a) {
                if self.cv(x).is_some() && self.cv(y).is_some() {
                    let x = self.mul(x, b);
                    let y = self.mul(y, b);
                    return self.ite(c, x, y);
                }
            }
            if bv.count_ones() == 2 && self.bits(a) <= 16 {
                let mut acc = self.konst(0, w);
                for i in 0..w {
                    if (bv >> i) & 1 == 1 {
                        let s = self.shl_c(a, i);
                        acc = self.add(acc, s);
                    }
                }
                return acc;
            }
        }
        if w <= 128 {
            // pull out common factors of two
            let nb = self.bits(a) + self.bits(b);
            if nb < w && nb > 0 {
                let x = self.extract(a, 0, nb);
                let y = self.extract(b, 0, nb);
                let s = self.mul(x, y);
                return self.zext(s, w);
            }
        }
        let (a, b) = if self.cv(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.raw(Op::Mul(a, b), w)
    }
    pub fn shl_c(&mut self, a: T, k: u16) -> T {
        let w = self.w(a);
        if k == 0 {
            return a;
        }
        if k >= w {
            return self.konst(0, w);
        }
        let x = self.extract(a, 0, w - k);
        let z = self.konst(0, k);
        self.concat(&[x, z])
    }
    pub fn lshr_c(&mut self, a: T, k: u16) -> T {
        let w = self.w(a);
        if k == 0 {
            return a;
        }
        if k >= w {
            return self.konst(0, w);
        }
        let x = self.extract(a, k, w - k);
        self.zext(x, w)
    }
    pub fn ashr_c(&mut self, a: T, k: u16) -> T {
        let w = self.w(a);
        let k = k.min(w - 1);
        if k == 0 {
            return a;
        }
        let x = self.extract(a, k, w - k);
        self.sext(x, w)
    }
    pub fn shl(&mut self, a: T, b: T) -> T {
        if let Some(k) = self.cv(b) {
            return self.shl_c(a, k.min(60000) as u16);
        }
        self.sym_shift(0, a, b)
    }
    pub fn lshr(&mut self, a: T, b: T) -> T {
        if let Some(k) = self.cv(b) {
            return self.lshr_c(a, k.min(60000) as u16);
        }
        self.sym_shift(1, a, b)
    }
    pub fn ashr(&mut self, a: T, b: T) -> T {
        if let Some(k) = self.cv(b) {
            return self.ashr_c(a, k.min(60000) as u16);
        }
        self.sym_shift(2, a, b)
    }
    fn sym_shift(&mut self, k: u8, a: T, b: T) -> T {
        let w = self.w(a);
        if let Op::Ite(c, x, y) = *self.op(b) {
            if self.cv(x).is_some() && self.cv(y).is_some() {
                let (p, q) = match k {
                    0 => (self.shl(a, x), self.shl(a, y)),
                    1 => (self.lshr(a, x), self.lshr(a, y)),
                    _ => (self.ashr(a, x), self.ashr(a, y)),
                };
                return self.ite(c, p, q);
            }
        }
        if let (Some(av), true) = (self.cv(a), self.n(b).hi < 64) {
            // constant shifted by a small symbolic amount: a table
            let n = self.n(b).hi as usize + 1;
            let d: Vec<u128> = (0..n)
                .map(|i| {
                    let i = i as u32;
                    if i >= w as u32 {
                        return 0;
                    }
                    match k {
                        0 => (av << i) & mask(w),
                        1 => av >> i,
                        _ => {
                            let s = ((av << (128 - w as u32)) as i128) >> (128 - w as u32);
                            ((s >> i) as u128) & mask(w)
                        }
                    }
                })
                .collect();
            return self.lut(d, w, b);
        }
        self.raw(
            match k {
                0 => Op::Shl(a, b),
                1 => Op::LShr(a, b),
                _ => Op::AShr(a, b),
            },
            w,
        )
    }
    pub fn udiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(bv) = self.cv(b) {
            if bv != 0 {
                if let Some(av) = self.cv(a) {
                    return self.konst(av / bv, w);
                }
                if bv.is_power_of_two() {
                    return self.lshr_c(a, bv.trailing_zeros() as u16);
                }
            }
        }
        let nb = self.bits(a).max(self.bits(b)).max(1);
        if nb < w && self.n(b).lo > 0 {
            let x = self.extract(a, 0, nb);
            let y = self.extract(b, 0, nb);
            let s = self.udiv(x, y);
            return self.zext(s, w);
        }
        self.raw(Op::UDiv(a, b), w)
    }
    pub fn urem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(bv) = self.cv(b) {
            if bv != 0 {
                if let Some(av) = self.cv(a) {
                    return self.konst(av % bv, w);
                }
                if bv.is_power_of_two() {
                    let c = self.konst(bv - 1, w);
                    return self.and(a, c);
                }
            }
        }
        let nb = self.bits(a).max(self.bits(b)).max(1);
        if nb < w && self.n(b).lo > 0 {
            let x = self.extract(a, 0, nb);
            let y = self.extract(b, 0, nb);
            let s = self.urem(x, y);
            return self.zext(s, w);
        }
        self.raw(Op::URem(a, b), w)
    }
    pub fn sdiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let s = 1u128 << (w - 1);
        if self.n(a).may1 & s == 0 && self.n(b).may1 & s == 0 {
            return self.udiv(a, b);
        }
        self.raw(Op::SDiv(a, b), w)
    }
    pub fn srem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let s = 1u128 << (w - 1);
        if self.n(a).may1 & s == 0 && self.n(b).may1 & s == 0 {
            return self.urem(a, b);
        }
        self.raw(Op::SRem(a, b), w)
    }

    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(v) = self.cv(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if let Op::Not(x) = *self.op(c) {
            return self.ite(x, b, a);
        }
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        let mut a = a;
        let mut b = b;
        if let Op::Ite(d, x, _) = *self.op(a) {
            if d == c {
                a = x;
            }
        }
        if let Op::Ite(d, _, y) = *self.op(b) {
            if d == c {
                b = y;
            }
        }
        if a == b {
            return a;
        }
        // strip shared structure of concats (same cut points, mostly zero extensions)
        if w > 1 {
            let (ca, cb) = (matches!(self.op(a), Op::Concat(_)), matches!(self.op(b), Op::Concat(_)));
            let ka = self.cv(a).is_some();
            let kb = self.cv(b).is_some();
            if (ca && (cb || kb)) || (cb && ka) {
                let cuts = {
                    let x = if ca { self.cuts_of(a) } else { vec![w] };
                    let y = if cb { self.cuts_of(b) } else { vec![w] };
                    if ca && cb && x != y {
                        Vec::new()
                    } else {
                        Self::merge_cuts(&x, &y)
                    }
                };
                if cuts.len() > 1 {
                    let pa = self.split_at(a, &cuts);
                    let pb = self.split_at(b, &cuts);
                    if pa.iter().zip(&pb).any(|(x, y)| x == y) {
                        let mut q = Vec::new();
                        for (x, y) in pa.iter().zip(&pb) {
                            q.push(self.ite(c, *x, *y));
                        }
                        q.reverse();
                        return self.concat(&q);
                    }
                }
            }
        }
        self.raw(Op::Ite(c, a, b), w)
    }

    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.tt;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let Some(bv) = self.cv(b) {
            if let Some(av) = self.cv(a) {
                return self.boolc(av == bv);
            }
            let n = self.n(a);
            if bv < n.lo || bv > n.hi || bv & !n.may1 != 0 || n.must1 & !bv != 0 {
                return self.ff;
            }
            if w == 1 {
                return if bv == 1 { a } else { self.not(a) };
            }
            match self.op(a).clone() {
                Op::Add(x, y) if self.cv(y).is_some() => {
                    let c = self.konst(bv.wrapping_sub(self.cv(y).unwrap()), w);
                    return self.eq(x, c);
                }
                Op::Xor(x, y) if self.cv(y).is_some() => {
                    let c = self.konst(bv ^ self.cv(y).unwrap(), w);
                    return self.eq(x, c);
                }
                Op::Not(x) => {
                    let c = self.konst(!bv, w);
                    return self.eq(x, c);
                }
                Op::Ite(c, x, y) if self.cv(x).is_some() || self.cv(y).is_some() => {
                    let x = self.eq(x, b);
                    let y = self.eq(y, b);
                    return self.ite(c, x, y);
                }
                Op::Lut(tb, ix) => {
                    let d: Vec<u128> = self.tables[tb as usize].data.iter().map(|v| (*v == bv) as u128).collect();
                    if (d.len() as u128) > self.n(ix).hi {
                        return self.lut(d, 1, ix);
                    }
                }
                Op::Sub(x, y) if bv == 0 => return self.eq(x, y),
                _ => {}
            }
        } else if w <= 128 {
            let (na, nb) = (self.n(a), self.n(b));
            if na.hi < nb.lo || nb.hi < na.lo || na.must1 & !nb.may1 != 0 || nb.must1 & !na.may1 != 0 {
                return self.ff;
            }
        }
        if w == 1 {
            let x = self.xor(a, b);
            return self.not(x);
        }
        let ca = matches!(self.op(a), Op::Concat(_));
        let cb = matches!(self.op(b), Op::Concat(_));
        if ca || cb {
            let x = self.cuts_of(a);
            let y = self.cuts_of(b);
            let cuts = Self::merge_cuts(&x, &y);
            let pa = self.split_at(a, &cuts);
            let pb = self.split_at(b, &cuts);
            let mut r = self.tt;
            for (x, y) in pa.iter().zip(&pb) {
                let e = self.eq(*x, *y);
                r = self.and(r, e);
                if r == self.ff {
                    return r;
                }
            }
            return r;
        }
        if self.cv(b).is_none() {
            if let (Op::Ite(c, x, y), Op::Ite(d, p, q)) = (self.op(a).clone(), self.op(b).clone()) {
                if c == d {
                    let l = self.eq(x, p);
                    let r = self.eq(y, q);
                    return self.ite(c, l, r);
                }
            }
        }
        let (a, b) = if self.cv(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.raw(Op::Eq(a, b), 1)
    }

    pub fn ult(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.ff;
        }
        let w = self.w(a);
        if w <= 128 {
            let (na, nb) = (self.n(a), self.n(b));
            if na.hi < nb.lo {
                return self.tt;
            }
            if na.lo >= nb.hi {
                return self.ff;
            }
            if w == 1 {
                let n = self.not(a);
                return self.and(n, b);
            }
            let nbits = self.bits(a).max(self.bits(b)).max(1);
            if nbits < w {
                let x = self.extract(a, 0, nbits);
                let y = self.extract(b, 0, nbits);
                return self.ult(x, y);
            }
        }
        if let Some(bv) = self.cv(b) {
            if bv == 1 {
                let z = self.konst(0, w);
                return self.eq(a, z);
            }
            if bv == mask(w) {
                let e = self.eq(a, b);
                return self.not(e);
            }
            // drop trailing zeros of the bound
            let tz = bv.trailing_zeros() as u16;
            if tz > 0 {
                let x = self.extract(a, tz, w - tz);
                let y = self.konst(bv >> tz, w - tz);
                return self.ult(x, y);
            }
            match self.op(a).clone() {
                Op::Ite(c, x, y) if self.cv(x).is_some() || self.cv(y).is_some() => {
                    let x = self.ult(x, b);
                    let y = self.ult(y, b);
                    return self.ite(c, x, y);
                }
                Op::Lut(tb, ix) => {
                    let d: Vec<u128> = self.tables[tb as usize].data.iter().map(|v| (*v < bv) as u128).collect();
                    if (d.len() as u128) > self.n(ix).hi {
                        return self.lut(d, 1, ix);
                    }
                }
                Op::Not(x) => {
                    let c = self.konst(!bv, w);
                    return self.ult(c, x);
                }
                _ => {}
            }
        }
        if let Some(av) = self.cv(a) {
            if av == 0 {
                let e = self.eq(b, a);
                return self.not(e);
            }
            if av == mask(w) - 1 {
                let m = self.konst(mask(w), w);
                return self.eq(b, m);
            }
            // av < b with av = k*2^t + (2^t - 1)
            let to = av.trailing_ones() as u16;
            if to > 0 && to < w {
                let x = self.konst(av >> to, w - to);
                let y = self.extract(b, to, w - to);
                return self.ult(x, y);
            }
            match self.op(b).clone() {
                Op::Ite(c, x, y) if self.cv(x).is_some() || self.cv(y).is_some() => {
                    let x = self.ult(a, x);
                    let y = self.ult(a, y);
                    return self.ite(c, x, y);
                }
                Op::Lut(tb, ix) => {
                    let d: Vec<u128> = self.tables[tb as usize].data.iter().map(|v| (av < *v) as u128).collect();
                    if (d.len() as u128) > self.n(ix).hi {
                        return self.lut(d, 1, ix);
                    }
                }
                Op::Not(x) => {
                    let c = self.konst(!av, w);
                    return self.ult(x, c);
                }
                _ => {}
            }
            // canonical form: av < b  <=>  not (b < av+1)
            let c = self.konst(av + 1, w);
            let t = self.ult(b, c);
            return self.not(t);
        }
        self.raw(Op::Ult(a, b), 1)
    }
    pub fn ule(&mut self, a: T, b: T) -> T {
        let t = self.ult(b, a);
        self.not(t)
    }
    pub fn slt(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.ff;
        }
        let w = self.w(a);
        if w == 1 {
            // 1 is -1
            let n = self.not(b);
            return self.and(a, n);
        }
        if w <= 128 {
            let s = 1u128 << (w - 1);
            let (na, nb) = (self.n(a), self.n(b));
            let (an, ap) = (na.must1 & s != 0, na.may1 & s == 0);
            let (bn, bp) = (nb.must1 & s != 0, nb.may1 & s == 0);
            if (ap && bp) || (an && bn) {
                return self.ult(a, b);
            }
            if an && bp {
                return self.tt;
            }
            if ap && bn {
                return self.ff;
            }
        }
        if self.is_zero(b) {
            return self.extract(a, w - 1, 1);
        }
        if let Some(av) = self.cv(a) {
            if av == mask(w) {
                let m = self.extract(b, w - 1, 1);
                return self.not(m);
            }
            if let Op::Ite(c, x, y) = *self.op(b) {
                if self.cv(x).is_some() || self.cv(y).is_some() {
                    let x = self.slt(a, x);
                    let y = self.slt(a, y);
                    return self.ite(c, x, y);
                }
            }
        }
        if self.cv(b).is_some() {
            if let Op::Ite(c, x, y) = *self.op(a) {
                if self.cv(x).is_some() || self.cv(y).is_some() {
                    let x = self.slt(x, b);
                    let y = self.slt(y, b);
                    return self.ite(c, x, y);
                }
            }
        }
        if w <= 128 {
            // flip the sign bits: unsigned comparison with one constant side normalises further
            if self.cv(a).is_some() || self.cv(b).is_some() {
                let ma = self.extract(a, w - 1, 1);
                let la = self.extract(a, 0, w - 1);
                let mb = self.extract(b, w - 1, 1);
                let lb = self.extract(b, 0, w - 1);
                // a<b  <=>  (ma & !mb) | (ma==mb & la<lb)
                let u = self.ult(la, lb);
                let nmb = self.not(mb);
                let x = self.and(ma, nmb);
                let e = self.eq(ma, mb);
                let y = self.and(e, u);
                return self.or(x, y);
            }
        }
        self.raw(Op::Slt(a, b), 1)
    }
    pub fn sle(&mut self, a: T, b: T) -> T {
        let t = self.slt(b, a);
        self.not(t)
    }

    /// the same operation on other operands
    pub fn rebuild(&mut self, t: T, f: &mut dyn FnMut(&mut Ctx, T) -> T) -> T {
        let w = self.w(t);
        macro_rules! two {
            ($m:ident, $a:expr, $b:expr) => {{
                let (a, b) = ($a, $b);
                let (x, y) = (f(self, a), f(self, b));
                if x == a && y == b {
                    t
                } else {
                    self.$m(x, y)
                }
            }};
        }
        match self.op(t).clone() {
            Op::Const(_) | Op::Var(_) => t,
            Op::Not(a) => {
                let x = f(self, a);
                if x == a { t } else { self.not(x) }
            }
            Op::Extract(a, lo) => {
                let x = f(self, a);
                if x == a { t } else { self.extract(x, lo, w) }
            }
            Op::Lut(id, a) => {
                let x = f(self, a);
                if x == a {
                    t
                } else {
                    let d = self.tables[id as usize].data.clone();
                    self.lut(d, w, x)
                }
            }
            Op::And(a, b) => two!(and, a, b),
            Op::Or(a, b) => two!(or, a, b),
            Op::Xor(a, b) => two!(xor, a, b),
            Op::Add(a, b) => two!(add, a, b),
            Op::Sub(a, b) => two!(sub, a, b),
            Op::Mul(a, b) => two!(mul, a, b),
            Op::UDiv(a, b) => two!(udiv, a, b),
            Op::URem(a, b) => two!(urem, a, b),
            Op::SDiv(a, b) => two!(sdiv, a, b),
            Op::SRem(a, b) => two!(srem, a, b),
            Op::Shl(a, b) => two!(shl, a, b),
            Op::LShr(a, b) => two!(lshr, a, b),
            Op::AShr(a, b) => two!(ashr, a, b),
            Op::Eq(a, b) => two!(eq, a, b),
            Op::Ult(a, b) => two!(ult, a, b),
            Op::Slt(a, b) => two!(slt, a, b),
            Op::Ite(c, a, b) => {
                let k = f(self, c);
                match self.cv(k) {
                    Some(1) => f(self, a),
                    Some(_) => f(self, b),
                    None => {
                        let (x, y) = (f(self, a), f(self, b));
                        if k == c && x == a && y == b { t } else { self.ite(k, x, y) }
                    }
                }
            }
            Op::Concat(p) => {
                let q: Vec<T> = p.iter().map(|x| f(self, *x)).collect();
                if q[..] == p[..] { t } else { self.concat(&q) }
            }
        }
    }

    pub fn children(&self, t: T, f: &mut dyn FnMut(T)) {
        match self.op(t) {
            Op::Const(_) | Op::Var(_) => {}
            Op::Not(a) | Op::Extract(a, _) | Op::Lut(_, a) => f(*a),
            Op::And(a, b)
            | Op::Or(a, b)
            | Op::Xor(a, b)
            | Op::Add(a, b)
            | Op::Sub(a, b)
            | Op::Mul(a, b)
            | Op::UDiv(a, b)
            | Op::URem(a, b)
            | Op::SDiv(a, b)
            | Op::SRem(a, b)
            | Op::Shl(a, b)
            | Op::LShr(a, b)
            | Op::AShr(a, b)
            | Op::Eq(a, b)
            | Op::Ult(a, b)
            | Op::Slt(a, b) => {
                f(*a);
                f(*b);
            }
            Op::Ite(a, b, c) => {
                f(*a);
                f(*b);
                f(*c);
            }
            Op::Concat(p) => {
                for x in p.iter() {
                    f(*x)
                }
            }
        }
    }

    /// variables occurring in the terms
    pub fn support(&self, ts: &[T], seen: &mut std::collections::HashSet<T, FxB>, out: &mut Vec<u32>) {
        let mut st: Vec<T> = ts.to_vec();
        while let Some(t) = st.pop() {
            if !seen.insert(t) {
                continue;
            }
            if let Op::Var(v) = self.op(t) {
                out.push(*v);
            }
            self.children(t, &mut |x| st.push(x));
        }
    }

    /// evaluate under an assignment (missing variables are 0); widths above 128 unsupported
    pub fn eval(&self, t: T, env: &FMap<u32, u128>, memo: &mut FMap<T, u128>) -> u128 {
        if let Op::Const(v) = self.op(t) {
            return *v;
        }
        if let Some(v) = memo.get(&t) {
            return *v;
        }
        // iterative post-order to avoid deep recursion
        let mut st: Vec<(T, bool)> = vec![(t, false)];
        while let Some((x, done)) = st.pop() {
            if memo.contains_key(&x) {
                continue;
            }
            if !done {
                if let Op::Ite(c, a, b) = *self.op(x) {
                    // lazily: condition first
                    if let Some(cv) = self.cv(c).or_else(|| memo.get(&c).copied()) {
                        let y = if cv == 1 { a } else { b };
                        if let Some(v) = self.cv(y).or_else(|| memo.get(&y).copied()) {
                            memo.insert(x, v);
                        } else {
                            st.push((x, false));
                            st.push((y, false));
                        }
                    } else {
                        st.push((x, false));
                        st.push((c, false));
                    }
                    continue;
                }
                st.push((x, true));
                self.children(x, &mut |y| st.push((y, false)));
                continue;
            }
            let g = |y: T| -> u128 {
                match self.op(y) {
                    Op::Const(v) => *v,
                    _ => memo[&y],
                }
            };
            let n = self.n(x);
            let w = n.w;
            let m = mask(w);
            let sx = |v: u128, w: u16| -> i128 { ((v << (128 - w as u32)) as i128) >> (128 - w as u32) };
            let v = match &n.op {
                Op::Const(v) => *v,
                Op::Var(i) => env.get(i).copied().unwrap_or(0) & m,
                Op::Not(a) => !g(*a) & m,
                Op::And(a, b) => g(*a) & g(*b),
                Op::Or(a, b) => g(*a) | g(*b),
                Op::Xor(a, b) => g(*a) ^ g(*b),
                Op::Add(a, b) => g(*a).wrapping_add(g(*b)) & m,
                Op::Sub(a, b) => g(*a).wrapping_sub(g(*b)) & m,
                Op::Mul(a, b) => g(*a).wrapping_mul(g(*b)) & m,
                Op::UDiv(a, b) => {
                    let b = g(*b);
                    if b == 0 {
                        m
                    } else {
                        g(*a) / b
                    }
                }
                Op::URem(a, b) => {
                    let b = g(*b);
                    if b == 0 {
                        g(*a)
                    } else {
                        g(*a) % b
                    }
                }
                Op::SDiv(a, b) => {
                    let (p, q) = (sx(g(*a), w), sx(g(*b), w));
                    if q == 0 {
                        if p < 0 {
                            1
                        } else {
                            m
                        }
                    } else {
                        p.wrapping_div(q) as u128 & m
                    }
                }
                Op::SRem(a, b) => {
                    let (p, q) = (sx(g(*a), w), sx(g(*b), w));
                    if q == 0 {
                        p as u128 & m
                    } else {
                        p.wrapping_rem(q) as u128 & m
                    }
                }
                Op::Shl(a, b) => {
                    let k = g(*b);
                    if k >= w as u128 {
                        0
                    } else {
                        (g(*a) << k) & m
                    }
                }
                Op::LShr(a, b) => {
                    let k = g(*b);
                    if k >= w as u128 {
                        0
                    } else {
                        g(*a) >> k
                    }
                }
                Op::AShr(a, b) => {
                    let k = g(*b).min(w as u128 - 1);
                    (sx(g(*a), w) >> k) as u128 & m
                }
                Op::Concat(p) => {
                    let mut r = 0u128;
                    for y in p.iter() {
                        let yw = self.w(*y);
                        r = if yw >= 128 { g(*y) } else { (r << yw) | g(*y) };
                    }
                    r
                }
                Op::Extract(a, l) => {
                    if self.w(*a) > 128 {
                        panic!("eval: wide extract")
                    }
                    (g(*a) >> l) & m
                }
                Op::Eq(a, b) => (g(*a) == g(*b)) as u128,
                Op::Ult(a, b) => (g(*a) < g(*b)) as u128,
                Op::Slt(a, b) => {
                    let aw = self.w(*a);
                    (sx(g(*a), aw) < sx(g(*b), aw)) as u128
                }
                Op::Ite(..) => unreachable!(),
                Op::Lut(tb, ix) => {
                    let t = &self.tables[*tb as usize];
                    t.data.get(g(*ix) as usize).copied().unwrap_or(0)
                }
            };
            memo.insert(x, v);
        }
        memo[&t]
    }
}
