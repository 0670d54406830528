//! Two threads running the same harness, each on inputs of its own, in one address space.
//! Every atomic access to memory both can reach is a point where the other thread may go on, with a
//! bound on the number of such switches. That is all interleavings worth exploring as long as no two
//! accesses race, and a race (by happens-before, with the orderings written in the code) is a violation.
use super::*;

/// object numbers of the second thread's thread-locals
pub const TLS: u32 = 0x8000;

#[derive(Clone, Copy, Default)]
struct Rec {
    /// last write: thread, its clock (0: none), atomic
    w: (u8, u32, bool),
    /// last read of each thread
    r: [(u32, bool); 2],
}

#[derive(Clone)]
pub struct Threads<'m> {
    pub cur: usize,
    /// frames, announced panic
    pub other: Option<(Vec<Frame<'m>>, Option<u32>)>,
    switches: u32,
    /// the thread resumes at the very access it was suspended at
    resumed: [bool; 2],
    clock: [[u32; 2]; 2],
    released: BTreeMap<u64, [u32; 2]>,
    seen: BTreeMap<u64, Rec>,
    /// the access being executed is atomic
    atomic: bool,
    fenced: bool,
    /// what the second thread allocated
    pub second_heap: BTreeSet<u32>,
    pub schedule: Vec<String>,
}

impl<'m> Threads<'m> {
    pub fn new(second: Vec<Frame<'m>>, switches: u32) -> Self {
        Threads {
            cur: 0,
            other: Some((second, None)),
            switches,
            resumed: [false; 2],
            clock: [[1, 0], [0, 1]],
            released: BTreeMap::new(),
            seen: BTreeMap::new(),
            atomic: false,
            fenced: false,
            second_heap: BTreeSet::new(),
            schedule: vec![],
        }
    }
}

impl<'m, 's> Exec<'m, 's> {
    /// the other thread goes on
    pub(super) fn swap(&mut self, st: &mut State<'m>) {
        let t = st.thr.as_mut().unwrap();
        let (frames, ok) = t.other.take().unwrap();
        let mine = std::mem::replace(&mut st.frames, frames);
        let mine_ok = std::mem::replace(&mut st.panic_ok, ok);
        if !mine.is_empty() {
            t.other = Some((mine, mine_ok));
        }
        t.cur = 1 - t.cur;
        t.atomic = false;
        let k = t.cur as u8;
        st.trace.push(Ev::Thread(k));
        st.tpos = st.trace.len();
    }

    /// a thread that waits lets the other one go on
    pub(super) fn wait(&mut self, st: &mut State<'m>) {
        if st.thr.as_ref().map_or(false, |t| t.other.is_some()) {
            self.swap(st);
        }
    }

    pub(super) fn at_atomic(&mut self, st: &mut State<'m>, inst: &'m Inst) -> E<()> {
        let t = st.thr.as_mut().unwrap();
        t.atomic = false;
        let (p, read, write) = match &inst.k {
            K::Load(_, p, _) => (p, true, false),
            K::Store(_, _, p, _) => (p, false, true),
            K::CmpXchg(_, p, ..) | K::AtomicRmw(_, _, p, _) => (p, true, true),
            K::Nop if self.m.line(inst.line as usize).contains("fence ") => {
                t.fenced = true;
                return Ok(());
            }
            _ => return Ok(()),
        };
        let line = self.m.line(inst.line as usize);
        if !(read && write) && !line.contains(" atomic ") {
            return Ok(());
        }
        let p = self.gets(st, p, &Ty::Ptr)?;
        let a = self.num_of(p)?;
        let id = (a >> sh()) as u32;
        match self.get_obj(st, a)? {
            Some(o) if matches!(o.kind, Kind::GlobalMut | Kind::Heap) && !(id >= TLS && id < first_id()) => {}
            _ => return Ok(()),
        }
        let cur = st.thr.as_ref().unwrap().cur;
        let t = st.thr.as_ref().unwrap();
        if t.other.is_some() && t.switches > 0 && !t.resumed[cur] {
            let mut o = st.clone();
            {
                let t = o.thr.as_mut().unwrap();
                t.switches -= 1;
                t.resumed[cur] = true;
                t.schedule.push(format!("thread {cur} stops before {}", line.trim().chars().take(90).collect::<String>()));
            }
            self.swap(&mut o);
            self.out.forks += 1;
            self.work.push(o);
        }
        let t = st.thr.as_mut().unwrap();
        t.resumed[cur] = false;
        t.atomic = true;
        let acquire = line.contains("acquire") || line.contains("acq_rel") || line.contains("seq_cst");
        let release = line.contains("release") || line.contains("acq_rel") || line.contains("seq_cst");
        if read && acquire {
            if let Some(c) = t.released.get(&a) {
                for i in 0..2 {
                    t.clock[cur][i] = t.clock[cur][i].max(c[i]);
                }
            }
        }
        if write {
            if release {
                let mut c = t.clock[cur];
                if let (true, Some(o)) = (read, t.released.get(&a)) {
                    for i in 0..2 {
                        c[i] = c[i].max(o[i]);
                    }
                }
                t.released.insert(a, c);
            } else if !read {
                t.released.remove(&a);
            }
        }
        Ok(())
    }

    /// called for every access to memory both threads can reach
    pub(super) fn race(&mut self, st: &mut State<'m>, addr: u64, n: u64, write: bool) -> E<()> {
        let id = (addr >> sh()) as u32;
        if id >= TLS && id < first_id() {
            return Ok(());
        }
        let own = |g: &Global| self.m.line(g.line).contains("thread_local");
        if id < TLS && self.m.by_id.get(id as usize).and_then(|n| self.m.globals.get(n)).map_or(false, own) {
            return Ok(());
        }
        let t = st.thr.as_mut().unwrap();
        let me = t.cur;
        let you = 1 - me;
        let (known, atomic, now) = (t.clock[me][you], t.atomic, t.clock[me][me]);
        for a in addr..addr + n {
            let r = t.seen.entry(a).or_default();
            let w = r.w.0 as usize == you && r.w.1 > known && !(r.w.2 && atomic);
            let rd = write && r.r[you].0 > known && !(r.r[you].1 && atomic);
            if (w || rd) && !t.fenced {
                let what = if write { "write" } else { "read" };
                let whom = if w { "write" } else { "read" };
                let s = t.schedule.join("; ");
                return Err(Stop::Violation("memory:race".into(), format!("{what} of {n} bytes races with a {whom} of another thread, at {} ({s})", self.describe(st, addr))));
            }
            if write {
                r.w = (me as u8, now, atomic);
            } else {
                r.r[me] = (now, atomic && (r.r[me].0 != now || r.r[me].1));
            }
        }
        // what came before a release is in the clock it published; what comes after is later
        if write && atomic {
            t.clock[me][me] += 1;
        }
        Ok(())
    }

    fn num_of(&mut self, t: T) -> E<u64> {
        match self.c.cv(t) {
            Some(x) => Ok(x as u64),
            None => uns("atomic access at a symbolic address"),
        }
    }
}
