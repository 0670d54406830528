//! Stand-in for rayon: the same functions, but the tasks of one parallel call run one after the
//! other in an order the symbolic executor chooses (it explores all of them), and the number of
//! threads is whatever the harness says.
#![allow(clippy::all)]
extern "C" {
    fn vf_choose(n: u64) -> u64;
}
fn choose(n: usize) -> usize {
    if n < 2 {
        return 0;
    }
    unsafe { vf_choose(n as u64) as usize }
}

static mut THREADS: usize = 1;
/// for the harness only
pub fn set_threads(n: usize) {
    unsafe { THREADS = n }
}
pub fn current_num_threads() -> usize {
    unsafe { THREADS }
}
pub fn max_num_threads() -> usize {
    65535
}
pub fn current_thread_index() -> Option<usize> {
    let n = current_num_threads();
    if choose(2) == 0 {
        None
    } else {
        Some(choose(n))
    }
}

/// calls `f` once for every index below `n`
fn in_some_order(n: usize, mut f: impl FnMut(usize)) {
    if n > 4 {
        // too many orders: from the first or the middle one on, forwards and backwards
        let back = choose(2) == 1;
        let from = choose(2) * (n / 2);
        let mut k = 0;
        while k < n {
            let i = (from + k) % n;
            f(if back { n - 1 - i } else { i });
            k += 1;
        }
        return;
    }
    let mut left = [0, 1, 2, 3];
    let mut m = n;
    while m > 0 {
        let c = choose(m);
        let i = left[c];
        m -= 1;
        left[c] = left[m];
        f(i);
    }
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA,
    B: FnOnce() -> RB,
{
    if choose(2) == 0 {
        let x = a();
        (x, b())
    } else {
        let y = b();
        (a(), y)
    }
}

pub struct Scope<'s> {
    tasks: std::cell::RefCell<Vec<Box<dyn FnOnce(&Scope<'s>) + 's>>>,
}
impl<'s> Scope<'s> {
    pub fn spawn<F: FnOnce(&Scope<'s>) + 's>(&self, f: F) {
        self.tasks.borrow_mut().push(Box::new(f));
    }
}
pub fn scope<'s, F: FnOnce(&Scope<'s>) -> R, R>(f: F) -> R {
    let s = Scope { tasks: Default::default() };
    let r = f(&s);
    loop {
        let n = s.tasks.borrow().len();
        if n == 0 {
            return r;
        }
        let t = s.tasks.borrow_mut().swap_remove(if n > 4 { (n - 1) * choose(2) } else { choose(n) });
        t(&s);
    }
}
pub use scope as in_place_scope;

pub mod iter {
    use super::in_some_order;

    /// a sequence whose items are produced by index, each at most once
    pub trait ParallelIterator: Sized {
        type Item;
        fn count_of(&self) -> usize;
        /// each index at most once
        unsafe fn item(&self, i: usize) -> Self::Item;

        fn for_each<F: Fn(Self::Item)>(self, f: F) {
            in_some_order(self.count_of(), |i| f(unsafe { self.item(i) }))
        }
        fn for_each_with<T: Clone, F: Fn(&mut T, Self::Item)>(self, init: T, f: F) {
            in_some_order(self.count_of(), |i| f(&mut init.clone(), unsafe { self.item(i) }))
        }
        fn for_each_init<T, I: Fn() -> T, F: Fn(&mut T, Self::Item)>(self, init: I, f: F) {
            in_some_order(self.count_of(), |i| f(&mut init(), unsafe { self.item(i) }))
        }
        fn try_for_each<E, F: Fn(Self::Item) -> Result<(), E>>(self, f: F) -> Result<(), E> {
            let mut r = Ok(());
            in_some_order(self.count_of(), |i| {
                if r.is_ok() {
                    r = f(unsafe { self.item(i) });
                }
            });
            r
        }
        fn map<R, F: Fn(Self::Item) -> R>(self, f: F) -> Map<Self, F> {
            Map(self, f)
        }
        fn count(self) -> usize {
            let mut n = 0;
            in_some_order(self.count_of(), |i| {
                unsafe { self.item(i) };
                n += 1;
            });
            n
        }
        fn sum<S: std::iter::Sum<Self::Item>>(self) -> S {
            gather(self).into_iter().sum()
        }
        fn all<F: Fn(Self::Item) -> bool>(self, f: F) -> bool {
            let mut r = true;
            in_some_order(self.count_of(), |i| r &= f(unsafe { self.item(i) }));
            r
        }
        fn any<F: Fn(Self::Item) -> bool>(self, f: F) -> bool {
            let mut r = false;
            in_some_order(self.count_of(), |i| r |= f(unsafe { self.item(i) }));
            r
        }
        fn reduce<I: Fn() -> Self::Item, F: Fn(Self::Item, Self::Item) -> Self::Item>(self, id: I, f: F) -> Self::Item {
            gather(self).into_iter().fold(id(), f)
        }
        fn collect<C: FromIterator<Self::Item>>(self) -> C {
            gather(self).into_iter().collect()
        }
    }
    fn gather<P: ParallelIterator>(p: P) -> Vec<P::Item> {
        let mut v: Vec<Option<P::Item>> = (0..p.count_of()).map(|_| None).collect();
        in_some_order(p.count_of(), |i| v[i] = Some(unsafe { p.item(i) }));
        v.into_iter().flatten().collect()
    }

    pub trait IndexedParallelIterator: ParallelIterator {
        fn len(&self) -> usize {
            self.count_of()
        }
        fn zip<Z: IntoParallelIterator>(self, z: Z) -> Zip<Self, Z::Iter> {
            Zip(self, z.into_par_iter())
        }
        fn zip_eq<Z: IntoParallelIterator>(self, z: Z) -> Zip<Self, Z::Iter> {
            let z = z.into_par_iter();
            assert_eq!(self.count_of(), z.count_of(), "iterators must have the same length");
            Zip(self, z)
        }
        fn enumerate(self) -> Enumerate<Self> {
            Enumerate(self)
        }
        fn rev(self) -> Rev<Self> {
            Rev(self)
        }
        fn skip(self, n: usize) -> Skip<Self> {
            let n = n.min(self.count_of());
            Skip(self, n)
        }
        fn take(self, n: usize) -> Take<Self> {
            let n = n.min(self.count_of());
            Take(self, n)
        }
        fn with_min_len(self, _: usize) -> Self {
            self
        }
        fn with_max_len(self, _: usize) -> Self {
            self
        }
    }

    pub trait IntoParallelIterator {
        type Item;
        type Iter: ParallelIterator<Item = Self::Item>;
        fn into_par_iter(self) -> Self::Iter;
    }
    impl<P: ParallelIterator> IntoParallelIterator for P {
        type Item = P::Item;
        type Iter = P;
        fn into_par_iter(self) -> P {
            self
        }
    }
    pub trait IntoParallelRefIterator<'a> {
        type Item: 'a;
        fn par_iter(&'a self) -> Refs<'a, Self::Item>;
    }
    impl<'a, T: 'a> IntoParallelRefIterator<'a> for [T] {
        type Item = T;
        fn par_iter(&'a self) -> Refs<'a, T> {
            Refs(self)
        }
    }
    pub trait IntoParallelRefMutIterator<'a> {
        type Item: 'a;
        fn par_iter_mut(&'a mut self) -> Muts<'a, Self::Item>;
    }
    impl<'a, T: 'a> IntoParallelRefMutIterator<'a> for [T] {
        type Item = T;
        fn par_iter_mut(&'a mut self) -> Muts<'a, T> {
            Muts(self.as_mut_ptr(), self.len(), std::marker::PhantomData)
        }
    }

    macro_rules! adapter {
        ($name:ident<$($g:ident),*> where [$($b:tt)*], $item:ty, |$s:ident| $n:expr, |$i:ident| $e:expr) => {
            impl<$($g),*> ParallelIterator for $name<$($g),*> where $($b)* {
                type Item = $item;
                fn count_of(&self) -> usize {
                    let $s = self;
                    $n
                }
                unsafe fn item(&self, $i: usize) -> $item {
                    let $s = self;
                    $e
                }
            }
            impl<$($g),*> IndexedParallelIterator for $name<$($g),*> where $($b)* {}
        };
    }
    pub struct Map<P, F>(P, F);
    impl<P: ParallelIterator, R, F: Fn(P::Item) -> R> ParallelIterator for Map<P, F> {
        type Item = R;
        fn count_of(&self) -> usize {
            self.0.count_of()
        }
        unsafe fn item(&self, i: usize) -> R {
            (self.1)(self.0.item(i))
        }
    }
    impl<P: ParallelIterator, R, F: Fn(P::Item) -> R> IndexedParallelIterator for Map<P, F> {}
    pub struct Zip<A, B>(A, B);
    adapter!(Zip<A, B> where [A: ParallelIterator, B: ParallelIterator], (A::Item, B::Item), |s| s.0.count_of().min(s.1.count_of()), |i| (s.0.item(i), s.1.item(i)));
    pub struct Enumerate<A>(A);
    adapter!(Enumerate<A> where [A: ParallelIterator], (usize, A::Item), |s| s.0.count_of(), |i| (i, s.0.item(i)));
    pub struct Rev<A>(A);
    adapter!(Rev<A> where [A: ParallelIterator], A::Item, |s| s.0.count_of(), |i| s.0.item(s.0.count_of() - 1 - i));
    pub struct Skip<A>(A, usize);
    adapter!(Skip<A> where [A: ParallelIterator], A::Item, |s| s.0.count_of() - s.1, |i| s.0.item(s.1 + i));
    pub struct Take<A>(A, usize);
    adapter!(Take<A> where [A: ParallelIterator], A::Item, |s| s.1, |i| s.0.item(i));

    pub struct Refs<'a, T>(pub(crate) &'a [T]);
    impl<'a, T> ParallelIterator for Refs<'a, T> {
        type Item = &'a T;
        fn count_of(&self) -> usize {
            self.0.len()
        }
        unsafe fn item(&self, i: usize) -> &'a T {
            &self.0[i]
        }
    }
    impl<'a, T> IndexedParallelIterator for Refs<'a, T> {}
    pub struct Muts<'a, T>(pub(crate) *mut T, pub(crate) usize, pub(crate) std::marker::PhantomData<&'a mut [T]>);
    impl<'a, T> ParallelIterator for Muts<'a, T> {
        type Item = &'a mut T;
        fn count_of(&self) -> usize {
            self.1
        }
        unsafe fn item(&self, i: usize) -> &'a mut T {
            &mut *self.0.add(i)
        }
    }
    impl<'a, T> IndexedParallelIterator for Muts<'a, T> {}

    pub struct Range(std::ops::Range<usize>);
    impl ParallelIterator for Range {
        type Item = usize;
        fn count_of(&self) -> usize {
            self.0.len()
        }
        unsafe fn item(&self, i: usize) -> usize {
            self.0.start + i
        }
    }
    impl IndexedParallelIterator for Range {}
    impl IntoParallelIterator for std::ops::Range<usize> {
        type Item = usize;
        type Iter = Range;
        fn into_par_iter(self) -> Range {
            Range(self)
        }
    }
    pub struct Owned<T>(std::cell::RefCell<Vec<Option<T>>>);
    impl<T> ParallelIterator for Owned<T> {
        type Item = T;
        fn count_of(&self) -> usize {
            self.0.borrow().len()
        }
        unsafe fn item(&self, i: usize) -> T {
            self.0.borrow_mut()[i].take().unwrap()
        }
    }
    impl<T> IndexedParallelIterator for Owned<T> {}
    impl<T> IntoParallelIterator for Vec<T> {
        type Item = T;
        type Iter = Owned<T>;
        fn into_par_iter(self) -> Owned<T> {
            Owned(std::cell::RefCell::new(self.into_iter().map(Some).collect()))
        }
    }
}

pub mod slice {
    use super::iter::*;
    pub struct Chunks<'a, T> {
        s: &'a [T],
        k: usize,
    }
    impl<'a, T> ParallelIterator for Chunks<'a, T> {
        type Item = &'a [T];
        fn count_of(&self) -> usize {
            self.s.len() / self.k + (self.s.len() % self.k != 0) as usize
        }
        unsafe fn item(&self, i: usize) -> &'a [T] {
            &self.s[i * self.k..((i + 1) * self.k).min(self.s.len())]
        }
    }
    impl<'a, T> IndexedParallelIterator for Chunks<'a, T> {}
    pub struct ChunksMut<'a, T> {
        p: *mut T,
        n: usize,
        k: usize,
        life: std::marker::PhantomData<&'a mut [T]>,
    }
    impl<'a, T> ParallelIterator for ChunksMut<'a, T> {
        type Item = &'a mut [T];
        fn count_of(&self) -> usize {
            self.n / self.k + (self.n % self.k != 0) as usize
        }
        unsafe fn item(&self, i: usize) -> &'a mut [T] {
            let (lo, hi) = (i * self.k, ((i + 1) * self.k).min(self.n));
            std::slice::from_raw_parts_mut(self.p.add(lo), hi - lo)
        }
    }
    impl<'a, T> IndexedParallelIterator for ChunksMut<'a, T> {}

    pub trait ParallelSlice<T> {
        fn as_parallel_slice(&self) -> &[T];
        fn par_chunks(&self, k: usize) -> Chunks<'_, T> {
            assert!(k != 0, "chunk_size must not be zero");
            Chunks { s: self.as_parallel_slice(), k }
        }
        fn par_chunks_exact(&self, k: usize) -> Chunks<'_, T> {
            assert!(k != 0, "chunk_size must not be zero");
            let s = self.as_parallel_slice();
            Chunks { s: &s[..s.len() / k * k], k }
        }
    }
    impl<T> ParallelSlice<T> for [T] {
        fn as_parallel_slice(&self) -> &[T] {
            self
        }
    }
    pub trait ParallelSliceMut<T> {
        fn as_parallel_slice_mut(&mut self) -> &mut [T];
        fn par_chunks_mut(&mut self, k: usize) -> ChunksMut<'_, T> {
            assert!(k != 0, "chunk_size must not be zero");
            let s = self.as_parallel_slice_mut();
            ChunksMut { p: s.as_mut_ptr(), n: s.len(), k, life: std::marker::PhantomData }
        }
        fn par_chunks_exact_mut(&mut self, k: usize) -> ChunksMut<'_, T> {
            assert!(k != 0, "chunk_size must not be zero");
            let s = self.as_parallel_slice_mut();
            ChunksMut { p: s.as_mut_ptr(), n: s.len() / k * k, k, life: std::marker::PhantomData }
        }
    }
    impl<T> ParallelSliceMut<T> for [T] {
        fn as_parallel_slice_mut(&mut self) -> &mut [T] {
            self
        }
    }
}

pub mod prelude {
    pub use crate::iter::{IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator, IntoParallelRefMutIterator, ParallelIterator};
    pub use crate::slice::{ParallelSlice, ParallelSliceMut};
}
