//! Joining paths. When a branch on symbolic data has several feasible arms, the arms are run up to the
//! point where control flow meets again (the immediate postdominator of the branch) and the resulting
//! states are joined into one whose registers and memory select between the arms' values. Jobs start
//! without it and are run again with it when they fork too often.
use super::*;

/// forks of a job without joins before it is run again with them
pub const FORKS: u64 = 1500;
const ARRIVALS: usize = 80;
const STEPS: u64 = 6000;
const MAX_BYTES: usize = 256;

pub struct Cfg {
    /// immediate postdominator of each block; `blocks.len()` stands for the return
    pub ipdom: Vec<u32>,
    /// for a block in a loop: where the paths that stay in the loop meet again at the latest (its header
    /// at the start of the next round), and the blocks of the loop
    pub round: Vec<Option<(u32, Rc<BTreeSet<usize>>)>>,
    /// registers that are read at or after the start of the block's instructions that follow the phis
    pub live: Vec<HashSet<u32>>,
}

pub fn succs(b: &[Inst]) -> Vec<u32> {
    match b.last().map(|i| &i.k) {
        Some(K::Br(x)) => vec![*x],
        Some(K::CondBr(_, x, y)) => vec![*x, *y],
        Some(K::Switch(_, d, cs)) => {
            let mut v = vec![*d];
            v.extend(cs.iter().map(|x| x.1));
            v.sort_unstable();
            v.dedup();
            v
        }
        Some(K::Invoke(_, x)) => vec![*x],
        _ => vec![],
    }
}

fn uses(k: &K, f: &mut impl FnMut(u32)) {
    let mut v = |x: &V| {
        if let V::Reg(r) = x {
            f(*r)
        }
    };
    match k {
        K::Bin(_, _, a, b) | K::Icmp(_, _, a, b) | K::ExtractElt(a, b) | K::Shuffle(a, b, _, _) | K::InsertValue(a, b, _) => {
            v(a);
            v(b)
        }
        K::Select(_, a, b, c) | K::InsertElt(a, b, c) | K::CmpXchg(_, a, b, c) => {
            v(a);
            v(b);
            v(c)
        }
        K::Phi(_) | K::Alloca(..) | K::Br(_) | K::Unreachable | K::Nop | K::Unsupported(_) => {}
        K::AllocaDyn(_, a, _) | K::Load(_, a, _) | K::ExtractValue(a, _) | K::Cast(_, _, _, a) | K::Freeze(a) | K::CondBr(a, _, _) | K::Switch(a, _, _) => v(a),
        K::Store(_, a, b, _) | K::AtomicRmw(_, _, a, b) => {
            v(a);
            v(b)
        }
        K::Gep(b, _, ts) => {
            v(b);
            for t in ts {
                v(&t.0)
            }
        }
        K::Ret(r) => {
            if let Some((_, x)) = r {
                v(x)
            }
        }
        K::Call(c) | K::Invoke(c, _) => {
            if let Callee::Val(x) = &c.callee {
                v(x)
            }
            for (_, x) in &c.args {
                v(x)
            }
        }
    }
}

pub fn cfg(body: &Body) -> Cfg {
    let n = body.blocks.len();
    let exit = n;
    // reverse graph
    let mut out: Vec<Vec<usize>> = vec![vec![]; n + 1];
    let mut into: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for (i, b) in body.blocks.iter().enumerate() {
        let mut s: Vec<usize> = succs(b).iter().map(|x| *x as usize).collect();
        if matches!(b.last().map(|i| &i.k), Some(K::Ret(_))) {
            s.push(exit);
        }
        for x in &s {
            into[*x].push(i);
        }
        out[i] = s;
    }
    let idom = domtree(exit, &into, &out);
    // the innermost loop of each block, and where control meets again within one round of it
    let fwd = domtree(0, &out[..n].iter().map(|v| v.iter().copied().filter(|x| *x < n).collect()).collect::<Vec<Vec<usize>>>(), &into[..n].to_vec());
    let doms = |h: usize, mut b: usize| loop {
        if b == h {
            return true;
        }
        if fwd[b] == usize::MAX || fwd[b] == b {
            return false;
        }
        b = fwd[b];
    };
    let mut loops: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    for u in 0..n {
        for &h in &out[u] {
            if h < n && fwd[u] != usize::MAX && doms(h, u) {
                let l = loops.entry(h).or_default();
                l.insert(h);
                let mut st = vec![u];
                while let Some(x) = st.pop() {
                    if l.insert(x) {
                        st.extend(into[x].iter().copied());
                    }
                }
            }
        }
    }
    let mut round: Vec<Option<(u32, Rc<BTreeSet<usize>>)>> = vec![None; n];
    let mut ls: Vec<(usize, BTreeSet<usize>)> = loops.into_iter().collect();
    ls.sort_by_key(|x| std::cmp::Reverse(x.1.len()));
    for (h, l) in ls {
        let mut lo: Vec<Vec<usize>> = vec![vec![]; n + 1];
        let mut li: Vec<Vec<usize>> = vec![vec![]; n + 1];
        for &b in &l {
            for &x in &out[b] {
                if l.contains(&x) {
                    let x = if x == h { n } else { x };
                    lo[b].push(x);
                    li[x].push(b);
                }
            }
        }
        let d = domtree(n, &li, &lo);
        let l = Rc::new(l);
        for &b in l.iter() {
            round[b] = match d[b] {
                usize::MAX => None,
                x => Some((if x == n { h as u32 } else { x as u32 }, l.clone())),
            };
        }
    }
    // liveness
    let mut live: Vec<HashSet<u32>> = vec![HashSet::new(); n];
    loop {
        let mut ch = false;
        for b in (0..n).rev() {
            let mut l: HashSet<u32> = HashSet::new();
            for s in succs(&body.blocks[b]) {
                let sb = &body.blocks[s as usize];
                let mut in_s = live[s as usize].clone();
                for i in sb {
                    match &i.k {
                        K::Phi(_) => {
                            in_s.remove(&i.dst.unwrap());
                        }
                        _ => break,
                    }
                }
                for i in sb {
                    match &i.k {
                        K::Phi(ps) => {
                            for (v, from) in ps {
                                if let (V::Reg(r), true) = (v, *from as usize == b) {
                                    in_s.insert(*r);
                                }
                            }
                        }
                        _ => break,
                    }
                }
                l.extend(in_s);
            }
            for i in body.blocks[b].iter().rev() {
                if let K::Phi(_) = i.k {
                    break;
                }
                if let Some(d) = i.dst {
                    l.remove(&d);
                }
                uses(&i.k, &mut |r| {
                    l.insert(r);
                });
            }
            if l != live[b] {
                live[b] = l;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    Cfg { ipdom: idom.iter().take(n).map(|x| if *x == usize::MAX { u32::MAX } else { *x as u32 }).collect(), round, live }
}

/// immediate dominators from `root`; `usize::MAX` where it does not reach
fn domtree(root: usize, succ: &[Vec<usize>], pred: &[Vec<usize>]) -> Vec<usize> {
    let n = succ.len();
    let mut order = Vec::new();
    let mut num = vec![usize::MAX; n];
    let mut seen = vec![false; n];
    let mut stack = vec![(root, 0usize)];
    seen[root] = true;
    while let Some((b, i)) = stack.pop() {
        if i < succ[b].len() {
            stack.push((b, i + 1));
            let p = succ[b][i];
            if !seen[p] {
                seen[p] = true;
                stack.push((p, 0));
            }
        } else {
            num[b] = order.len();
            order.push(b);
        }
    }
    let mut idom = vec![usize::MAX; n];
    idom[root] = root;
    loop {
        let mut ch = false;
        for &b in order.iter().rev() {
            if b == root {
                continue;
            }
            let mut d = usize::MAX;
            for &s in &pred[b] {
                if !seen[s] || idom[s] == usize::MAX {
                    continue;
                }
                if d == usize::MAX {
                    d = s;
                } else {
                    let (mut x, mut y) = (d, s);
                    while x != y {
                        while num[x] < num[y] {
                            x = idom[x];
                        }
                        while num[y] < num[x] {
                            y = idom[y];
                        }
                    }
                    d = x;
                }
            }
            if idom[b] != d {
                idom[b] = d;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    idom
}

fn val_eq(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::U, Val::U) => true,
        (Val::S(x), Val::S(y)) => x == y,
        (Val::V(x), Val::V(y)) => Rc::ptr_eq(x, y) || x == y,
        (Val::A(x), Val::A(y)) => Rc::ptr_eq(x, y) || (x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| val_eq(p, q))),
        _ => false,
    }
}

impl<'m, 's> Exec<'m, 's> {
    /// `st` has just taken one arm of the branch that ends block `from`; the other arms are in `work[base..]`
    pub(super) fn join_arms(&mut self, st: &mut State<'m>, base: usize, depth: usize, fid: u32, body: &'m Body, from: u32) -> E<()> {
        let key = (self.mi, fid, from);
        if self.join_fail.get(&key).map_or(false, |n| *n >= 3) {
            return Ok(());
        }
        let g = match self.cfgs.get(&(self.mi, fid)) {
            Some(g) => g.clone(),
            None => {
                let g = Rc::new(cfg(body));
                self.cfgs.insert((self.mi, fid), g.clone());
                g
            }
        };
        let j = g.ipdom[from as usize];
        let round = g.round[from as usize].clone();
        // an arm that first has to finish the loop would only come back to this branch
        let whole = j != u32::MAX && (j as usize != body.blocks.len() || depth != 1) && round.as_ref().map_or(true, |r| r.1.contains(&(j as usize)));
        let snap = st.clone();
        let forks: Vec<State<'m>> = self.work.split_off(base);
        let mut fails = self.join_fail.get(&key).copied().unwrap_or(0);
        // first all paths up to the point all of them pass; else those that stay in the loop
        for inside in [false, true] {
            let (j, body_of) = match (inside, &round) {
                (false, _) if whole && fails == 0 => (j, None),
                (true, Some((h, l))) => (*h, Some(l.clone())),
                _ => continue,
            };
            match self.join_region(&snap, forks.clone(), base, depth, &g, from, j, body, body_of) {
                Ok(Some(m)) => {
                    *st = m;
                    self.out.joins += 1;
                    return Ok(());
                }
                Ok(None) => return Err(Stop::Infeasible),
                Err(Stop::Inconclusive(e)) => return Err(Stop::Inconclusive(e)),
                Err(e) => {
                    if std::env::var_os("VF_JOIN").is_some() {
                        eprintln!("join at {} block {from} -> {j}: {e:?}", demangle(&self.ms[key.0].by_id[fid as usize]));
                    }
                    self.work.truncate(base);
                    fails += 1;
                    self.join_fail.insert(key, fails);
                }
            }
        }
        if fails == 0 {
            self.join_fail.insert(key, 9);
        }
        self.work.extend(forks);
        *st = snap;
        Ok(())
    }

    #[allow(clippy::too_many_arguments)]
    fn join_region(&mut self, st: &State<'m>, forks: Vec<State<'m>>, base: usize, depth: usize, g: &Cfg, from: u32, j: u32, body: &'m Body, inside: Option<Rc<BTreeSet<usize>>>) -> E<Option<State<'m>>> {
        let exit = j as usize == body.blocks.len();
        let mut todo = forks;
        todo.push(st.clone());
        let mut arrived: Vec<State<'m>> = Vec::new();
        let mut left: Vec<State<'m>> = Vec::new();
        let mut total = 0;
        let mut first = true;
        while let Some(mut s) = todo.pop() {
            // an arm that has not been taken yet still stands before the branch
            let at = |s: &State<'m>| {
                let f = s.frames.last().unwrap();
                s.frames.len() == depth && f.bb == from && f.ip + 1 >= f.body.blocks[from as usize].len()
            };
            let mut at_branch = !first && at(&s);
            first = false;
            loop {
                if exit {
                    if s.frames.len() == depth - 1 {
                        arrived.push(s);
                        break;
                    }
                } else if s.frames.len() == depth {
                    let f = s.frames.last().unwrap();
                    if f.bb == j && f.ip == f.body.blocks[j as usize].iter().take_while(|i| matches!(i.k, K::Phi(_))).count() && !at_branch {
                        arrived.push(s);
                        break;
                    }
                    if let Some(l) = &inside {
                        if !l.contains(&(f.bb as usize)) {
                            left.push(s);
                            break;
                        }
                    }
                    if f.bb == from && !at_branch {
                        return uns("loop");
                    }
                }
                if s.frames.len() < depth {
                    if inside.is_some() {
                        left.push(s);
                        break;
                    }
                    return uns("left the function");
                }
                total += 1;
                if total > STEPS || arrived.len() > ARRIVALS || todo.len() > ARRIVALS {
                    return uns("region too large");
                }
                let r = self.step(&mut s);
                todo.extend(self.work.split_off(base));
                match r {
                    Ok(()) => {}
                    Err(Stop::Retry) => {}
                    Err(Stop::Infeasible) => {
                        self.out.infeasible += 1;
                        break;
                    }
                    Err(e) => return Err(e),
                }
                at_branch = at_branch && at(&s);
            }
        }
        while arrived.len() > 1 {
            let mut best = (0, 1, 0);
            for a in 0..arrived.len() {
                for b in a + 1..arrived.len() {
                    let n = arrived[a].pc.iter().zip(&arrived[b].pc).take_while(|(x, y)| x.0 == y.0).count();
                    if n + 1 > best.2 {
                        best = (a, b, n + 1);
                    }
                }
            }
            let b = arrived.swap_remove(best.1);
            let a = std::mem::replace(&mut arrived[best.0], b.clone());
            let live = if exit { None } else { Some(&g.live[j as usize]) };
            let m = self.join_two(a, b, live)?;
            arrived[best.0] = m;
        }
        self.work.extend(left);
        Ok(arrived.pop())
    }

    fn and_all(&mut self, l: &[T]) -> T {
        let mut r = self.c.tt;
        for &x in l {
            r = self.c.and(r, x);
        }
        r
    }

    fn implied(&mut self, t: T, by: &[T]) -> bool {
        let mut v = Vec::new();
        self.flatten(t, &mut v);
        v.iter().all(|x| by.contains(x))
    }

    fn join_two(&mut self, a: State<'m>, b: State<'m>, live: Option<&HashSet<u32>>) -> E<State<'m>> {
        if a.frames.len() != b.frames.len() || a.tpos != b.tpos || a.buffers != b.buffers || a.run != b.run || a.trace.len() != b.trace.len() || a.panic_ok != b.panic_ok || a.covers != b.covers {
            return uns("states of different shape");
        }
        for (x, y) in a.trace.iter().zip(&b.trace) {
            let same = match (x, y) {
                (Ev::Sym(p), Ev::Sym(q)) => p == q,
                (Ev::Choose(p), Ev::Choose(q)) => p == q,
                _ => false,
            };
            if !same {
                return uns("different inputs");
            }
        }
        if a.results != b.results {
            return uns("different results");
        }
        // path condition
        let n = a.pc.iter().zip(&b.pc).take_while(|(x, y)| x.0 == y.0).count();
        let sa: Vec<T> = a.pc[n..].iter().map(|x| x.0).collect();
        let sb: Vec<T> = b.pc[n..].iter().map(|x| x.0).collect();
        let ca = self.and_all(&sa);
        let cb = self.and_all(&sb);
        if sa.is_empty() || sb.is_empty() {
            return uns("arms without a condition");
        }
        let (na0, nb0) = (self.c.not(sa[0]), self.c.not(sb[0]));
        let cond = if self.implied(na0, &sb) {
            sa[0]
        } else if self.implied(nb0, &sa) {
            nb0
        } else {
            ca
        };
        let mut m = a.clone();
        m.pc.truncate(n);
        m.pcset = m.pc.iter().map(|x| x.0).collect();
        self.pc_versions += 1;
        m.pcver = self.pc_versions;
        let (na, nb) = (self.c.not(ca), self.c.not(cb));
        m.known.retain(|k, v| b.known.get(k) == Some(v));
        {
            // either arm's condition; what the other arm's negation already says is left out
            let rest = |x: &mut Self, n: T, l: &[T]| -> Option<Vec<T>> {
                let mut v = Vec::new();
                x.flatten(n, &mut v);
                v.iter().all(|p| l.contains(p)).then(|| l.iter().copied().filter(|p| !v.contains(p)).collect())
            };
            let o = if let Some(r) = rest(self, na, &sb) {
                let r = self.and_all(&r);
                self.c.or(ca, r)
            } else if let Some(r) = rest(self, nb, &sa) {
                let r = self.and_all(&r);
                self.c.or(r, cb)
            } else {
                self.c.or(ca, cb)
            };
            if self.c.cv(o) != Some(1) {
                let no = self.c.not(o);
                if self.feasible(&m, no)?.is_some() {
                    self.add_pc(&mut m, o);
                }
            }
        }
        // registers of the running function
        let k = m.frames.len() - 1;
        if a.frames[k].bb != b.frames[k].bb || a.frames[k].ip != b.frames[k].ip || a.frames[k].allocas != b.frames[k].allocas || a.frames[k].f.id != b.frames[k].f.id {
            return uns("different places");
        }
        for r in 0..a.frames[k].regs.len() {
            let (x, y) = (&a.frames[k].regs[r], &b.frames[k].regs[r]);
            if val_eq(x, y) {
                continue;
            }
            let v = if live.map_or(false, |l| !l.contains(&(r as u32))) { Val::U } else { self.join_val(&m, cond, x, y)? };
            m.frames[k].regs[r] = v;
        }
        // the block control came from can only matter for phis, which have been taken
        // memory
        let mut ids: Vec<u32> = a.mem.keys().copied().collect();
        for i in b.mem.keys() {
            if !a.mem.contains_key(i) {
                ids.push(*i);
            }
        }
        let mut bytes = 0;
        for id in ids {
            let x = match a.mem.get(&id) {
                Some(o) => o.clone(),
                None => match (id < first_id(), self.global_obj(id)?) {
                    (true, Some(o)) => o,
                    _ => return uns("different objects"),
                },
            };
            let y = match b.mem.get(&id) {
                Some(o) => o.clone(),
                None => match (id < first_id(), self.global_obj(id)?) {
                    (true, Some(o)) => o,
                    _ => return uns("different objects"),
                },
            };
            if Rc::ptr_eq(&x, &y) || Rc::ptr_eq(&x.data, &y.data) {
                m.mem.insert(id, x);
                continue;
            }
            if x.base != y.base || x.size != y.size || x.kind != y.kind || x.ro != y.ro {
                return uns("different objects");
            }
            let mut d = (*x.data).clone();
            for i in 0..d.len() {
                let (p, q) = (x.data[i], y.data[i]);
                if p == q {
                    continue;
                }
                bytes += 1;
                if bytes > MAX_BYTES {
                    return uns("too much memory differs");
                }
                let p = if p == UNINIT { self.undef_byte() } else { p };
                let q = if q == UNINIT { self.undef_byte() } else { q };
                d[i] = self.c.ite(cond, p, q);
            }
            let mut o = (*x).clone();
            o.data = Rc::new(d);
            m.mem.insert(id, Rc::new(o));
        }
        m.next = a.next.max(b.next);
        if !Rc::ptr_eq(&a.freed, &b.freed) {
            let mut f = (*a.freed).clone();
            f.extend(b.freed.iter());
            m.freed = Rc::new(f);
        }
        // each arm's steps count once
        m.steps = a.steps.max(b.steps);
        Ok(m)
    }

    fn is_addr(&self, st: &State<'m>, t: T) -> bool {
        match self.c.cv(t) {
            Some(v) => self.c.w(t) == pw() && (v >> sh()) != 0 && ((v >> sh()) < first_id() as u128 || st.mem.contains_key(&((v >> sh()) as u32))),
            None => false,
        }
    }

    fn join_val(&mut self, st: &State<'m>, c: T, x: &Val, y: &Val) -> E<Val> {
        Ok(match (x, y) {
            (Val::S(a), Val::S(b)) if a == b => Val::S(*a),
            (Val::S(a), Val::S(b)) => {
                if self.is_addr(st, *a) || self.is_addr(st, *b) {
                    return uns("different addresses");
                }
                Val::S(self.c.ite(c, *a, *b))
            }
            (Val::V(a), Val::V(b)) if a.len() == b.len() => Val::V(Rc::new(a.iter().zip(b.iter()).map(|(p, q)| self.c.ite(c, *p, *q)).collect())),
            (Val::A(a), Val::A(b)) if a.len() == b.len() => {
                let mut v = Vec::new();
                for (p, q) in a.iter().zip(b.iter()) {
                    v.push(self.join_val(st, c, p, q)?);
                }
                Val::A(Rc::new(v))
            }
            // one arm never set it
            (Val::U, Val::U) => Val::U,
            _ => return uns("values of different shape"),
        })
    }
}
