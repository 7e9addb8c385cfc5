//! A stand-in for rayon in which every parallel item is a thread of the controlled scheduler (`mcstd::rt`).
//!
//! A parallel iterator is a list of sources and a shared pipeline; every source is one task. Inside a controlled
//! execution the tasks become model threads, so the explorer enumerates their interleavings; rayon's adaptive
//! splitting only ever runs subsets of those interleavings. Outside an execution tasks run one after
//! another, in an order the harness chooses (`rt::set_task_order`).
#![allow(clippy::type_complexity)]
use mcstd::rt;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, LinkedList, VecDeque};
use std::hash::{BuildHasher, Hash};
use std::marker::PhantomData;
use std::ops::{Range, RangeInclusive};
use std::sync::Mutex;

pub mod iter {
    pub use crate::{
        empty, once, repeatn, Either, FromParallelIterator, IndexedParallelIterator, IntoParallelIterator,
        IntoParallelRefIterator, IntoParallelRefMutIterator, ParallelBridge, ParallelDrainFull, ParallelExtend,
        ParallelIterator,
    };
}
pub mod slice {
    pub use crate::{ParallelSlice, ParallelSliceMut};
}
pub mod str {
    pub use crate::ParallelString;
}
pub mod prelude {
    pub use crate::{
        FromParallelIterator, IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator,
        IntoParallelRefMutIterator, ParallelBridge, ParallelDrainFull, ParallelExtend, ParallelIterator,
        ParallelSlice, ParallelSliceMut, ParallelString,
    };
}

/// What is applied to every source; shared by all tasks.
pub trait Pipe<S, I>: Sync {
    fn run(&self, src: S, sink: &mut dyn FnMut(I));
}

pub struct Id;
impl<T> Pipe<T, T> for Id {
    fn run(&self, src: T, sink: &mut dyn FnMut(T)) {
        sink(src)
    }
}

/// Runs every source as a task; the results are those of the sources, in order.
fn tasks<S: Send, R: Send>(srcs: Vec<S>, f: &(dyn Fn(S) -> R + Sync)) -> Vec<R> {
    if !rt::in_execution() || srcs.len() <= 1 {
        let ord = rt::task_order(srcs.len());
        if ord.is_empty() {
            return srcs.into_iter().map(f).collect();
        }
        let mut srcs: Vec<Option<S>> = srcs.into_iter().map(Some).collect();
        let mut out: Vec<Option<R>> = srcs.iter().map(|_| None).collect();
        for i in ord {
            out[i] = Some(f(srcs[i].take().unwrap()));
        }
        return out.into_iter().map(|r| r.unwrap()).collect();
    }
    let slots: Vec<Mutex<Option<R>>> = srcs.iter().map(|_| Mutex::new(None)).collect();
    {
        let ts: Vec<Box<dyn FnOnce() + Send + '_>> = srcs
            .into_iter()
            .zip(slots.iter())
            .map(|(s, slot)| {
                Box::new(move || {
                    let r = f(s);
                    *slot.lock().unwrap() = Some(r);
                }) as Box<dyn FnOnce() + Send + '_>
            })
            .collect();
        rt::run_tasks(ts);
    }
    slots.into_iter().map(|s| s.into_inner().unwrap().expect("task aborted")).collect()
}

pub trait ParallelIterator: Sized + Send {
    type Item: Send;
    type Src: Send;
    type P: Pipe<Self::Src, Self::Item>;
    fn parts(self) -> (Vec<Self::Src>, Self::P);

    fn drive(self) -> Vec<Vec<Self::Item>> {
        let (s, p) = self.parts();
        tasks(s, &|src| {
            let mut v = Vec::new();
            p.run(src, &mut |i| v.push(i));
            v
        })
    }
    fn items(self) -> Vec<Self::Item> {
        self.drive().into_iter().flatten().collect()
    }

    fn for_each<F: Fn(Self::Item) + Sync + Send>(self, f: F) {
        let (s, p) = self.parts();
        tasks(s, &|src| p.run(src, &mut |i| f(i)));
    }
    fn for_each_with<T: Send + Clone, F: Fn(&mut T, Self::Item) + Sync + Send>(self, init: T, f: F) {
        let (s, p) = self.parts();
        let srcs: Vec<_> = s.into_iter().map(|x| (x, init.clone())).collect();
        tasks(srcs, &|(src, mut t)| p.run(src, &mut |i| f(&mut t, i)));
    }
    fn for_each_init<T, INIT: Fn() -> T + Sync + Send, F: Fn(&mut T, Self::Item) + Sync + Send>(self, init: INIT, f: F) {
        let (s, p) = self.parts();
        tasks(s, &|src| {
            let mut t = init();
            p.run(src, &mut |i| f(&mut t, i))
        });
    }
    fn try_for_each<F, E>(self, f: F) -> Result<(), E>
    where
        F: Fn(Self::Item) -> Result<(), E> + Sync + Send,
        E: Send,
    {
        self.map(f).items().into_iter().collect()
    }
    fn map<F: Fn(Self::Item) -> R + Sync + Send, R: Send>(self, f: F) -> Map<Self, F> {
        Map { b: self, f }
    }
    fn map_with<T, F, R>(self, init: T, f: F) -> MapInit<Self, Box<dyn Fn() -> T + Sync + Send>, F>
    where
        T: Send + Sync + Clone + 'static,
        F: Fn(&mut T, Self::Item) -> R + Sync + Send,
        R: Send,
    {
        MapInit { b: self, init: Box::new(move || init.clone()), f }
    }
    fn map_init<INIT, T, F, R>(self, init: INIT, f: F) -> MapInit<Self, INIT, F>
    where
        INIT: Fn() -> T + Sync + Send,
        F: Fn(&mut T, Self::Item) -> R + Sync + Send,
        R: Send,
    {
        MapInit { b: self, init, f }
    }
    fn cloned<'a, T: 'a + Clone + Send + Sync>(self) -> Map<Self, fn(&'a T) -> T>
    where
        Self: ParallelIterator<Item = &'a T>,
    {
        Map { b: self, f: |x: &'a T| x.clone() }
    }
    fn copied<'a, T: 'a + Copy + Send + Sync>(self) -> Map<Self, fn(&'a T) -> T>
    where
        Self: ParallelIterator<Item = &'a T>,
    {
        Map { b: self, f: |x: &'a T| *x }
    }
    fn inspect<F: Fn(&Self::Item) + Sync + Send>(self, f: F) -> Inspect<Self, F> {
        Inspect { b: self, f }
    }
    fn update<F: Fn(&mut Self::Item) + Sync + Send>(self, f: F) -> Update<Self, F> {
        Update { b: self, f }
    }
    fn filter<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> Filter<Self, F> {
        Filter { b: self, f }
    }
    fn filter_map<F: Fn(Self::Item) -> Option<R> + Sync + Send, R: Send>(self, f: F) -> FilterMap<Self, F> {
        FilterMap { b: self, f }
    }
    fn flat_map<F: Fn(Self::Item) -> PI + Sync + Send, PI: IntoParallelIterator>(self, f: F) -> FlatMap<Self, F> {
        FlatMap { b: self, f }
    }
    fn flat_map_iter<F: Fn(Self::Item) -> SI + Sync + Send, SI: IntoIterator>(self, f: F) -> FlatMapIter<Self, F>
    where
        SI::Item: Send,
    {
        FlatMapIter { b: self, f }
    }
    fn flatten(self) -> FlatMap<Self, fn(Self::Item) -> Self::Item>
    where
        Self::Item: IntoParallelIterator,
    {
        FlatMap { b: self, f: |x| x }
    }
    fn flatten_iter(self) -> FlatMapIter<Self, fn(Self::Item) -> Self::Item>
    where
        Self::Item: IntoIterator,
        <Self::Item as IntoIterator>::Item: Send,
    {
        FlatMapIter { b: self, f: |x| x }
    }
    fn reduce<OP, ID>(self, identity: ID, op: OP) -> Self::Item
    where
        OP: Fn(Self::Item, Self::Item) -> Self::Item + Sync + Send,
        ID: Fn() -> Self::Item + Sync + Send,
    {
        let parts = self.drive();
        parts
            .into_iter()
            .map(|v| v.into_iter().fold(identity(), |a, b| op(a, b)))
            .fold(identity(), |a, b| op(a, b))
    }
    fn reduce_with<OP>(self, op: OP) -> Option<Self::Item>
    where
        OP: Fn(Self::Item, Self::Item) -> Self::Item + Sync + Send,
    {
        self.items().into_iter().reduce(|a, b| op(a, b))
    }
    fn try_reduce<T, E, OP, ID>(self, identity: ID, op: OP) -> Result<T, E>
    where
        Self: ParallelIterator<Item = Result<T, E>>,
        OP: Fn(T, T) -> Result<T, E> + Sync + Send,
        ID: Fn() -> T + Sync + Send,
    {
        let mut acc = identity();
        for i in self.items() {
            acc = op(acc, i?)?;
        }
        Ok(acc)
    }
    fn fold<T: Send, ID, F>(self, identity: ID, f: F) -> Fold<Self, ID, F>
    where
        F: Fn(T, Self::Item) -> T + Sync + Send,
        ID: Fn() -> T + Sync + Send,
    {
        Fold { b: self, identity, f }
    }
    fn fold_with<T: Send + Sync + Clone, F>(self, init: T, f: F) -> Fold<Self, impl Fn() -> T + Sync + Send, F>
    where
        F: Fn(T, Self::Item) -> T + Sync + Send,
    {
        Fold { b: self, identity: move || init.clone(), f }
    }
    fn sum<S: Send + std::iter::Sum<Self::Item> + std::iter::Sum<S>>(self) -> S {
        self.drive().into_iter().map(|v| v.into_iter().sum::<S>()).sum()
    }
    fn product<S: Send + std::iter::Product<Self::Item> + std::iter::Product<S>>(self) -> S {
        self.drive().into_iter().map(|v| v.into_iter().product::<S>()).product()
    }
    fn min(self) -> Option<Self::Item>
    where
        Self::Item: Ord,
    {
        self.items().into_iter().min()
    }
    fn max(self) -> Option<Self::Item>
    where
        Self::Item: Ord,
    {
        self.items().into_iter().max()
    }
    fn min_by<F: Fn(&Self::Item, &Self::Item) -> Ordering + Sync + Send>(self, f: F) -> Option<Self::Item> {
        self.items().into_iter().min_by(|a, b| f(a, b))
    }
    fn max_by<F: Fn(&Self::Item, &Self::Item) -> Ordering + Sync + Send>(self, f: F) -> Option<Self::Item> {
        self.items().into_iter().max_by(|a, b| f(a, b))
    }
    fn min_by_key<K: Ord + Send, F: Fn(&Self::Item) -> K + Sync + Send>(self, f: F) -> Option<Self::Item> {
        self.items().into_iter().min_by_key(|a| f(a))
    }
    fn max_by_key<K: Ord + Send, F: Fn(&Self::Item) -> K + Sync + Send>(self, f: F) -> Option<Self::Item> {
        self.items().into_iter().max_by_key(|a| f(a))
    }
    fn count(self) -> usize {
        self.items().len()
    }
    fn any<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> bool {
        self.map(f).items().into_iter().any(|b| b)
    }
    fn all<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> bool {
        self.map(f).items().into_iter().all(|b| b)
    }
    fn find_any<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> Option<Self::Item> {
        let mut v = self.filter(f).items();
        if v.is_empty() {
            None
        } else {
            let i = rt::choose("find_any", v.len());
            Some(v.swap_remove(i))
        }
    }
    fn find_first<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> Option<Self::Item> {
        self.filter(f).items().into_iter().next()
    }
    fn find_last<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> Option<Self::Item> {
        self.filter(f).items().pop()
    }
    fn find_map_any<R: Send, F: Fn(Self::Item) -> Option<R> + Sync + Send>(self, f: F) -> Option<R> {
        let mut v = self.filter_map(f).items();
        if v.is_empty() {
            None
        } else {
            let i = rt::choose("find_map_any", v.len());
            Some(v.swap_remove(i))
        }
    }
    fn find_map_first<R: Send, F: Fn(Self::Item) -> Option<R> + Sync + Send>(self, f: F) -> Option<R> {
        self.filter_map(f).items().into_iter().next()
    }
    fn chain<C: IntoParallelIterator<Item = Self::Item>>(self, c: C) -> Chain<Self, C::Iter> {
        Chain { a: self, b: c.into_par_iter() }
    }
    fn collect<C: FromParallelIterator<Self::Item>>(self) -> C {
        C::from_par_iter(self)
    }
    fn collect_vec_list(self) -> LinkedList<Vec<Self::Item>> {
        self.drive().into_iter().collect()
    }
    fn unzip<A: Send, B: Send, FA, FB>(self) -> (FA, FB)
    where
        Self: ParallelIterator<Item = (A, B)>,
        FA: Default + Extend<A> + Send,
        FB: Default + Extend<B> + Send,
    {
        self.items().into_iter().unzip()
    }
    fn partition<A, B, F>(self, f: F) -> (A, B)
    where
        A: Default + Extend<Self::Item> + Send,
        B: Default + Extend<Self::Item> + Send,
        F: Fn(&Self::Item) -> bool + Sync + Send,
    {
        let (mut a, mut b) = (A::default(), B::default());
        for i in self.items() {
            if f(&i) {
                a.extend(Some(i))
            } else {
                b.extend(Some(i))
            }
        }
        (a, b)
    }
    fn partition_map<A: Default + Extend<L> + Send, B: Default + Extend<R> + Send, F, L: Send, R: Send>(self, f: F) -> (A, B)
    where
        F: Fn(Self::Item) -> Either<L, R> + Sync + Send,
    {
        let (mut a, mut b) = (A::default(), B::default());
        for i in self.map(f).items() {
            match i {
                Either::Left(l) => a.extend(Some(l)),
                Either::Right(r) => b.extend(Some(r)),
            }
        }
        (a, b)
    }
    fn opt_len(&self) -> Option<usize> {
        None
    }
}

pub trait IndexedParallelIterator: ParallelIterator {
    fn with_min_len(self, _n: usize) -> Self {
        self
    }
    fn with_max_len(self, _n: usize) -> Self {
        self
    }
    fn enumerate(self) -> Enumerate<Self> {
        Enumerate { b: self }
    }
    fn zip<Z: IntoParallelIterator>(self, z: Z) -> Zip<Self, Z::Iter>
    where
        Z::Iter: IndexedParallelIterator,
    {
        Zip { a: self, b: z.into_par_iter() }
    }
    fn zip_eq<Z: IntoParallelIterator>(self, z: Z) -> Zip<Self, Z::Iter>
    where
        Z::Iter: IndexedParallelIterator,
    {
        Zip { a: self, b: z.into_par_iter() }
    }
    fn rev(self) -> Reorder<Self> {
        Reorder { b: self, f: Box::new(|n| (0..n).rev().collect()) }
    }
    fn skip(self, k: usize) -> Reorder<Self> {
        Reorder { b: self, f: Box::new(move |n| (k.min(n)..n).collect()) }
    }
    fn take(self, k: usize) -> Reorder<Self> {
        Reorder { b: self, f: Box::new(move |n| (0..k.min(n)).collect()) }
    }
    fn step_by(self, k: usize) -> Reorder<Self> {
        Reorder { b: self, f: Box::new(move |n| (0..n).step_by(k).collect()) }
    }
    fn chunks(self, k: usize) -> Chunks<Self> {
        assert!(k != 0, "chunk_size must not be zero");
        Chunks { b: self, k }
    }
    fn len(self) -> usize {
        self.parts().0.len()
    }
    fn collect_into_vec(self, v: &mut Vec<Self::Item>) {
        *v = self.items();
    }
    fn unzip_into_vecs<A: Send, B: Send>(self, a: &mut Vec<A>, b: &mut Vec<B>)
    where
        Self: IndexedParallelIterator<Item = (A, B)>,
    {
        let (x, y) = self.items().into_iter().unzip();
        *a = x;
        *b = y;
    }
    fn position_any<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> Option<usize> {
        self.map(f).items().into_iter().position(|b| b)
    }
    fn position_first<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> Option<usize> {
        self.map(f).items().into_iter().position(|b| b)
    }
}

// ---- adapters

pub struct Map<B, F> {
    b: B,
    f: F,
}
pub struct MapPipe<P, F, I>(P, F, PhantomData<fn(I)>);
impl<S, I, R, P: Pipe<S, I>, F: Fn(I) -> R + Sync> Pipe<S, R> for MapPipe<P, F, I> {
    fn run(&self, s: S, sink: &mut dyn FnMut(R)) {
        self.0.run(s, &mut |i| sink((self.1)(i)))
    }
}
impl<B: ParallelIterator, R: Send, F: Fn(B::Item) -> R + Sync + Send> ParallelIterator for Map<B, F> {
    type Item = R;
    type Src = B::Src;
    type P = MapPipe<B::P, F, B::Item>;
    fn parts(self) -> (Vec<B::Src>, Self::P) {
        let (s, p) = self.b.parts();
        (s, MapPipe(p, self.f, PhantomData))
    }
}
impl<B: IndexedParallelIterator, R: Send, F: Fn(B::Item) -> R + Sync + Send> IndexedParallelIterator for Map<B, F> {}

pub struct MapInit<B, N, F> {
    b: B,
    init: N,
    f: F,
}
pub struct MapInitPipe<P, N, F, I>(P, N, F, PhantomData<fn(I)>);
impl<S, I, T, R, P: Pipe<S, I>, N: Fn() -> T + Sync, F: Fn(&mut T, I) -> R + Sync> Pipe<S, R> for MapInitPipe<P, N, F, I> {
    fn run(&self, s: S, sink: &mut dyn FnMut(R)) {
        let mut t = (self.1)();
        self.0.run(s, &mut |i| sink((self.2)(&mut t, i)))
    }
}
impl<B: ParallelIterator, T, R: Send, N: Fn() -> T + Sync + Send, F: Fn(&mut T, B::Item) -> R + Sync + Send> ParallelIterator
    for MapInit<B, N, F>
{
    type Item = R;
    type Src = B::Src;
    type P = MapInitPipe<B::P, N, F, B::Item>;
    fn parts(self) -> (Vec<B::Src>, Self::P) {
        let (s, p) = self.b.parts();
        (s, MapInitPipe(p, self.init, self.f, PhantomData))
    }
}
impl<B: IndexedParallelIterator, T, R: Send, N: Fn() -> T + Sync + Send, F: Fn(&mut T, B::Item) -> R + Sync + Send>
    IndexedParallelIterator for MapInit<B, N, F>
{
}

pub struct Inspect<B, F> {
    b: B,
    f: F,
}
pub struct InspectPipe<P, F>(P, F);
impl<S, I, P: Pipe<S, I>, F: Fn(&I) + Sync> Pipe<S, I> for InspectPipe<P, F> {
    fn run(&self, s: S, sink: &mut dyn FnMut(I)) {
        self.0.run(s, &mut |i| {
            (self.1)(&i);
            sink(i)
        })
    }
}
impl<B: ParallelIterator, F: Fn(&B::Item) + Sync + Send> ParallelIterator for Inspect<B, F> {
    type Item = B::Item;
    type Src = B::Src;
    type P = InspectPipe<B::P, F>;
    fn parts(self) -> (Vec<B::Src>, Self::P) {
        let (s, p) = self.b.parts();
        (s, InspectPipe(p, self.f))
    }
}
impl<B: IndexedParallelIterator, F: Fn(&B::Item) + Sync + Send> IndexedParallelIterator for Inspect<B, F> {}

pub struct Update<B, F> {
    b: B,
    f: F,
}
pub struct UpdatePipe<P, F>(P, F);
impl<S, I, P: Pipe<S, I>, F: Fn(&mut I) + Sync> Pipe<S, I> for UpdatePipe<P, F> {
    fn run(&self, s: S, sink: &mut dyn FnMut(I)) {
        self.0.run(s, &mut |mut i| {
            (self.1)(&mut i);
            sink(i)
        })
    }
}
impl<B: ParallelIterator, F: Fn(&mut B::Item) + Sync + Send> ParallelIterator for Update<B, F> {
    type Item = B::Item;
    type Src = B::Src;
    type P = UpdatePipe<B::P, F>;
    fn parts(self) -> (Vec<B::Src>, Self::P) {
        let (s, p) = self.b.parts();
        (s, UpdatePipe(p, self.f))
    }
}
impl<B: IndexedParallelIterator, F: Fn(&mut B::Item) + Sync + Send> IndexedParallelIterator for Update<B, F> {}

pub struct Filter<B, F> {
    b: B,
    f: F,
}
pub struct FilterPipe<P, F>(P, F);
impl<S, I, P: Pipe<S, I>, F: Fn(&I) -> bool + Sync> Pipe<S, I> for FilterPipe<P, F> {
    fn run(&self, s: S, sink: &mut dyn FnMut(I)) {
        self.0.run(s, &mut |i| {
            if (self.1)(&i) {
                sink(i)
            }
        })
    }
}
impl<B: ParallelIterator, F: Fn(&B::Item) -> bool + Sync + Send> ParallelIterator for Filter<B, F> {
    type Item = B::Item;
    type Src = B::Src;
    type P = FilterPipe<B::P, F>;
    fn parts(self) -> (Vec<B::Src>, Self::P) {
        let (s, p) = self.b.parts();
        (s, FilterPipe(p, self.f))
    }
}

pub struct FilterMap<B, F> {
    b: B,
    f: F,
}
pub struct FilterMapPipe<P, F, I>(P, F, PhantomData<fn(I)>);
impl<S, I, R, P: Pipe<S, I>, F: Fn(I) -> Option<R> + Sync> Pipe<S, R> for FilterMapPipe<P, F, I> {
    fn run(&self, s: S, sink: &mut dyn FnMut(R)) {
        self.0.run(s, &mut |i| {
            if let Some(r) = (self.1)(i) {
                sink(r)
            }
        })
    }
}
impl<B: ParallelIterator, R: Send, F: Fn(B::Item) -> Option<R> + Sync + Send> ParallelIterator for FilterMap<B, F> {
    type Item = R;
    type Src = B::Src;
    type P = FilterMapPipe<B::P, F, B::Item>;
    fn parts(self) -> (Vec<B::Src>, Self::P) {
        let (s, p) = self.b.parts();
        (s, FilterMapPipe(p, self.f, PhantomData))
    }
}

pub struct FlatMap<B, F> {
    b: B,
    f: F,
}
pub struct FlatMapPipe<P, F, I>(P, F, PhantomData<fn(I)>);
impl<S, I, PI: IntoParallelIterator, P: Pipe<S, I>, F: Fn(I) -> PI + Sync> Pipe<S, PI::Item> for FlatMapPipe<P, F, I> {
    fn run(&self, s: S, sink: &mut dyn FnMut(PI::Item)) {
        self.0.run(s, &mut |i| {
            for x in (self.1)(i).into_par_iter().items() {
                sink(x)
            }
        })
    }
}
impl<B: ParallelIterator, PI: IntoParallelIterator, F: Fn(B::Item) -> PI + Sync + Send> ParallelIterator for FlatMap<B, F> {
    type Item = PI::Item;
    type Src = B::Src;
    type P = FlatMapPipe<B::P, F, B::Item>;
    fn parts(self) -> (Vec<B::Src>, Self::P) {
        let (s, p) = self.b.parts();
        (s, FlatMapPipe(p, self.f, PhantomData))
    }
}

pub struct FlatMapIter<B, F> {
    b: B,
    f: F,
}
pub struct FlatMapIterPipe<P, F, I>(P, F, PhantomData<fn(I)>);
impl<S, I, SI: IntoIterator, P: Pipe<S, I>, F: Fn(I) -> SI + Sync> Pipe<S, SI::Item> for FlatMapIterPipe<P, F, I> {
    fn run(&self, s: S, sink: &mut dyn FnMut(SI::Item)) {
        self.0.run(s, &mut |i| {
            for x in (self.1)(i) {
                sink(x)
            }
        })
    }
}
impl<B: ParallelIterator, SI: IntoIterator, F: Fn(B::Item) -> SI + Sync + Send> ParallelIterator for FlatMapIter<B, F>
where
    SI::Item: Send,
{
    type Item = SI::Item;
    type Src = B::Src;
    type P = FlatMapIterPipe<B::P, F, B::Item>;
    fn parts(self) -> (Vec<B::Src>, Self::P) {
        let (s, p) = self.b.parts();
        (s, FlatMapIterPipe(p, self.f, PhantomData))
    }
}

pub struct Fold<B, ID, F> {
    b: B,
    identity: ID,
    f: F,
}
pub struct FoldPipe<P, ID, F, I>(P, ID, F, PhantomData<fn(I)>);
impl<S, I, T, P: Pipe<S, I>, ID: Fn() -> T + Sync, F: Fn(T, I) -> T + Sync> Pipe<S, T> for FoldPipe<P, ID, F, I> {
    fn run(&self, s: S, sink: &mut dyn FnMut(T)) {
        let mut acc = Some((self.1)());
        self.0.run(s, &mut |i| {
            let a = acc.take().unwrap();
            acc = Some((self.2)(a, i))
        });
        sink(acc.unwrap())
    }
}
impl<B: ParallelIterator, T: Send, ID: Fn() -> T + Sync + Send, F: Fn(T, B::Item) -> T + Sync + Send> ParallelIterator
    for Fold<B, ID, F>
{
    type Item = T;
    type Src = B::Src;
    type P = FoldPipe<B::P, ID, F, B::Item>;
    fn parts(self) -> (Vec<B::Src>, Self::P) {
        let (s, p) = self.b.parts();
        (s, FoldPipe(p, self.identity, self.f, PhantomData))
    }
}

pub struct Enumerate<B> {
    b: B,
}
pub struct EnumPipe<P>(P);
impl<S, I, P: Pipe<S, I>> Pipe<(usize, S), (usize, I)> for EnumPipe<P> {
    fn run(&self, s: (usize, S), sink: &mut dyn FnMut((usize, I))) {
        self.0.run(s.1, &mut |i| sink((s.0, i)))
    }
}
impl<B: IndexedParallelIterator> ParallelIterator for Enumerate<B> {
    type Item = (usize, B::Item);
    type Src = (usize, B::Src);
    type P = EnumPipe<B::P>;
    fn parts(self) -> (Vec<Self::Src>, Self::P) {
        let (s, p) = self.b.parts();
        (s.into_iter().enumerate().collect(), EnumPipe(p))
    }
}
impl<B: IndexedParallelIterator> IndexedParallelIterator for Enumerate<B> {}

pub struct Zip<A, B> {
    a: A,
    b: B,
}
pub struct ZipPipe<P, Q, I, J>(P, Q, PhantomData<fn(I, J)>);
impl<S, T, I, J, P: Pipe<S, I>, Q: Pipe<T, J>> Pipe<(S, T), (I, J)> for ZipPipe<P, Q, I, J> {
    fn run(&self, s: (S, T), sink: &mut dyn FnMut((I, J))) {
        let (mut x, mut y) = (None, None);
        self.0.run(s.0, &mut |i| x = Some(i));
        self.1.run(s.1, &mut |i| y = Some(i));
        sink((x.unwrap(), y.unwrap()))
    }
}
impl<A: IndexedParallelIterator, B: IndexedParallelIterator> ParallelIterator for Zip<A, B> {
    type Item = (A::Item, B::Item);
    type Src = (A::Src, B::Src);
    type P = ZipPipe<A::P, B::P, A::Item, B::Item>;
    fn parts(self) -> (Vec<Self::Src>, Self::P) {
        let (s, p) = self.a.parts();
        let (t, q) = self.b.parts();
        (s.into_iter().zip(t).collect(), ZipPipe(p, q, PhantomData))
    }
}
impl<A: IndexedParallelIterator, B: IndexedParallelIterator> IndexedParallelIterator for Zip<A, B> {}

pub enum Either<L, R> {
    Left(L),
    Right(R),
}
pub struct Chain<A, B> {
    a: A,
    b: B,
}
pub struct ChainPipe<P, Q>(P, Q);
impl<S, T, I, P: Pipe<S, I>, Q: Pipe<T, I>> Pipe<Either<S, T>, I> for ChainPipe<P, Q> {
    fn run(&self, s: Either<S, T>, sink: &mut dyn FnMut(I)) {
        match s {
            Either::Left(s) => self.0.run(s, sink),
            Either::Right(s) => self.1.run(s, sink),
        }
    }
}
impl<A: ParallelIterator, B: ParallelIterator<Item = A::Item>> ParallelIterator for Chain<A, B> {
    type Item = A::Item;
    type Src = Either<A::Src, B::Src>;
    type P = ChainPipe<A::P, B::P>;
    fn parts(self) -> (Vec<Self::Src>, Self::P) {
        let (s, p) = self.a.parts();
        let (t, q) = self.b.parts();
        (s.into_iter().map(Either::Left).chain(t.into_iter().map(Either::Right)).collect(), ChainPipe(p, q))
    }
}
impl<A: IndexedParallelIterator, B: IndexedParallelIterator<Item = A::Item>> IndexedParallelIterator for Chain<A, B> {}

pub struct Reorder<B> {
    b: B,
    f: Box<dyn Fn(usize) -> Vec<usize> + Send + Sync>,
}
impl<B: IndexedParallelIterator> ParallelIterator for Reorder<B> {
    type Item = B::Item;
    type Src = B::Src;
    type P = B::P;
    fn parts(self) -> (Vec<Self::Src>, Self::P) {
        let (s, p) = self.b.parts();
        let order = (self.f)(s.len());
        let mut s: Vec<Option<B::Src>> = s.into_iter().map(Some).collect();
        (order.into_iter().map(|i| s[i].take().unwrap()).collect(), p)
    }
}
impl<B: IndexedParallelIterator> IndexedParallelIterator for Reorder<B> {}

pub struct Chunks<B> {
    b: B,
    k: usize,
}
pub struct ChunksPipe<P>(P);
impl<S, I, P: Pipe<S, I>> Pipe<Vec<S>, Vec<I>> for ChunksPipe<P> {
    fn run(&self, s: Vec<S>, sink: &mut dyn FnMut(Vec<I>)) {
        let mut v = Vec::new();
        for x in s {
            self.0.run(x, &mut |i| v.push(i))
        }
        sink(v)
    }
}
impl<B: IndexedParallelIterator> ParallelIterator for Chunks<B> {
    type Item = Vec<B::Item>;
    type Src = Vec<B::Src>;
    type P = ChunksPipe<B::P>;
    fn parts(self) -> (Vec<Self::Src>, Self::P) {
        let (s, p) = self.b.parts();
        let mut out: Vec<Vec<B::Src>> = Vec::new();
        for x in s {
            if out.last().map_or(true, |l| l.len() >= self.k) {
                out.push(Vec::new());
            }
            out.last_mut().unwrap().push(x);
        }
        (out, ChunksPipe(p))
    }
}
impl<B: IndexedParallelIterator> IndexedParallelIterator for Chunks<B> {}

/// The basic parallel iterator: a list of items.
pub struct Items<T>(pub Vec<T>);
impl<T: Send> ParallelIterator for Items<T> {
    type Item = T;
    type Src = T;
    type P = Id;
    fn parts(self) -> (Vec<T>, Id) {
        (self.0, Id)
    }
}
impl<T: Send> IndexedParallelIterator for Items<T> {}

pub fn empty<T: Send>() -> Items<T> {
    Items(Vec::new())
}
pub fn once<T: Send>(t: T) -> Items<T> {
    Items(vec![t])
}
pub fn repeatn<T: Send + Clone>(t: T, n: usize) -> Items<T> {
    Items(vec![t; n])
}

// ---- conversions

pub trait IntoParallelIterator {
    type Iter: ParallelIterator<Item = Self::Item>;
    type Item: Send;
    fn into_par_iter(self) -> Self::Iter;
}
impl<T: ParallelIterator> IntoParallelIterator for T {
    type Iter = T;
    type Item = T::Item;
    fn into_par_iter(self) -> T {
        self
    }
}
macro_rules! into_par {
    ($([$($g:tt)*] $t:ty => $i:ty),* $(,)?) => { $(
        impl<$($g)*> IntoParallelIterator for $t where $i: Send {
            type Iter = Items<$i>;
            type Item = $i;
            fn into_par_iter(self) -> Items<$i> {
                Items(self.into_iter().collect())
            }
        } )* };
}
into_par! {
    [T: Send] Vec<T> => T,
    ['a, T: Sync] &'a Vec<T> => &'a T,
    ['a, T: Send] &'a mut Vec<T> => &'a mut T,
    ['a, T: Sync] &'a [T] => &'a T,
    ['a, T: Send] &'a mut [T] => &'a mut T,
    [T: Send, const N: usize] [T; N] => T,
    ['a, T: Sync, const N: usize] &'a [T; N] => &'a T,
    ['a, T: Send, const N: usize] &'a mut [T; N] => &'a mut T,
    [T: Send] VecDeque<T> => T,
    ['a, T: Sync] &'a VecDeque<T> => &'a T,
    [T: Send] LinkedList<T> => T,
    [T: Send + Ord] BinaryHeap<T> => T,
    [T: Send + Ord] BTreeSet<T> => T,
    ['a, T: Sync + Ord] &'a BTreeSet<T> => &'a T,
    [K: Send + Ord, V: Send] BTreeMap<K, V> => (K, V),
    ['a, K: Sync + Ord, V: Sync] &'a BTreeMap<K, V> => (&'a K, &'a V),
    ['a, K: Sync + Ord, V: Send] &'a mut BTreeMap<K, V> => (&'a K, &'a mut V),
    [T: Send + Hash + Eq, S: BuildHasher] HashSet<T, S> => T,
    ['a, T: Sync + Hash + Eq, S: BuildHasher] &'a HashSet<T, S> => &'a T,
    [K: Send + Hash + Eq, V: Send, S: BuildHasher] HashMap<K, V, S> => (K, V),
    ['a, K: Sync + Hash + Eq, V: Sync, S: BuildHasher] &'a HashMap<K, V, S> => (&'a K, &'a V),
    ['a, K: Sync + Hash + Eq, V: Send, S: BuildHasher] &'a mut HashMap<K, V, S> => (&'a K, &'a mut V),
    [T: Send] Option<T> => T,
    ['a, T: Sync] &'a Option<T> => &'a T,
}
macro_rules! into_par_range {
    ($($t:ty),*) => { $(
        impl IntoParallelIterator for Range<$t> {
            type Iter = Items<$t>;
            type Item = $t;
            fn into_par_iter(self) -> Items<$t> { Items(self.collect()) }
        }
        impl IntoParallelIterator for RangeInclusive<$t> {
            type Iter = Items<$t>;
            type Item = $t;
            fn into_par_iter(self) -> Items<$t> { Items(self.collect()) }
        } )* };
}
into_par_range!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, u128, i128);

pub trait IntoParallelRefIterator<'data> {
    type Iter: ParallelIterator<Item = Self::Item>;
    type Item: Send + 'data;
    fn par_iter(&'data self) -> Self::Iter;
}
impl<'data, I: 'data + ?Sized> IntoParallelRefIterator<'data> for I
where
    &'data I: IntoParallelIterator,
{
    type Iter = <&'data I as IntoParallelIterator>::Iter;
    type Item = <&'data I as IntoParallelIterator>::Item;
    fn par_iter(&'data self) -> Self::Iter {
        self.into_par_iter()
    }
}
pub trait IntoParallelRefMutIterator<'data> {
    type Iter: ParallelIterator<Item = Self::Item>;
    type Item: Send + 'data;
    fn par_iter_mut(&'data mut self) -> Self::Iter;
}
impl<'data, I: 'data + ?Sized> IntoParallelRefMutIterator<'data> for I
where
    &'data mut I: IntoParallelIterator,
{
    type Iter = <&'data mut I as IntoParallelIterator>::Iter;
    type Item = <&'data mut I as IntoParallelIterator>::Item;
    fn par_iter_mut(&'data mut self) -> Self::Iter {
        self.into_par_iter()
    }
}

pub trait ParallelDrainFull {
    type Iter: ParallelIterator<Item = Self::Item>;
    type Item: Send;
    fn par_drain(self) -> Self::Iter;
}
impl<'a, K: Send + Hash + Eq, V: Send, S: BuildHasher> ParallelDrainFull for &'a mut HashMap<K, V, S> {
    type Iter = Items<(K, V)>;
    type Item = (K, V);
    fn par_drain(self) -> Items<(K, V)> {
        Items(self.drain().collect())
    }
}
impl<'a, T: Send + Hash + Eq, S: BuildHasher> ParallelDrainFull for &'a mut HashSet<T, S> {
    type Iter = Items<T>;
    type Item = T;
    fn par_drain(self) -> Items<T> {
        Items(self.drain().collect())
    }
}

pub trait ParallelBridge: Sized {
    type Item: Send;
    fn par_bridge(self) -> Items<Self::Item>;
}
impl<T: Iterator + Send> ParallelBridge for T
where
    T::Item: Send,
{
    type Item = T::Item;
    /// The order of a bridged iterator is not kept: any rotation of it may come out.
    fn par_bridge(self) -> Items<T::Item> {
        let mut v: Vec<_> = self.collect();
        if v.len() > 1 {
            let k = rt::choose("par_bridge", v.len());
            v.rotate_left(k);
        }
        Items(v)
    }
}

pub trait FromParallelIterator<T: Send> {
    fn from_par_iter<I: IntoParallelIterator<Item = T>>(i: I) -> Self;
}
impl<T: Send, C: FromIterator<T>> FromParallelIterator<T> for C {
    fn from_par_iter<I: IntoParallelIterator<Item = T>>(i: I) -> C {
        i.into_par_iter().items().into_iter().collect()
    }
}
pub trait ParallelExtend<T: Send> {
    fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, i: I);
}
impl<T: Send, C: Extend<T>> ParallelExtend<T> for C {
    fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, i: I) {
        self.extend(i.into_par_iter().items())
    }
}

pub trait ParallelSlice<T: Sync> {
    fn as_parallel_slice(&self) -> &[T];
    fn par_chunks(&self, n: usize) -> Items<&[T]> {
        assert!(n != 0, "chunk_size must not be zero");
        Items(self.as_parallel_slice().chunks(n).collect())
    }
    fn par_chunks_exact(&self, n: usize) -> Items<&[T]> {
        assert!(n != 0, "chunk_size must not be zero");
        Items(self.as_parallel_slice().chunks_exact(n).collect())
    }
    fn par_rchunks(&self, n: usize) -> Items<&[T]> {
        assert!(n != 0, "chunk_size must not be zero");
        Items(self.as_parallel_slice().rchunks(n).collect())
    }
    fn par_windows(&self, n: usize) -> Items<&[T]> {
        Items(self.as_parallel_slice().windows(n).collect())
    }
    fn par_split<F: Fn(&T) -> bool + Sync + Send>(&self, f: F) -> Items<&[T]> {
        Items(self.as_parallel_slice().split(|x| f(x)).collect())
    }
}
impl<T: Sync> ParallelSlice<T> for [T] {
    fn as_parallel_slice(&self) -> &[T] {
        self
    }
}
pub trait ParallelSliceMut<T: Send> {
    fn as_parallel_slice_mut(&mut self) -> &mut [T];
    fn par_chunks_mut(&mut self, n: usize) -> Items<&mut [T]> {
        assert!(n != 0, "chunk_size must not be zero");
        Items(self.as_parallel_slice_mut().chunks_mut(n).collect())
    }
    fn par_chunks_exact_mut(&mut self, n: usize) -> Items<&mut [T]> {
        assert!(n != 0, "chunk_size must not be zero");
        Items(self.as_parallel_slice_mut().chunks_exact_mut(n).collect())
    }
    fn par_rchunks_mut(&mut self, n: usize) -> Items<&mut [T]> {
        assert!(n != 0, "chunk_size must not be zero");
        Items(self.as_parallel_slice_mut().rchunks_mut(n).collect())
    }
    fn par_split_mut<F: Fn(&T) -> bool + Sync + Send>(&mut self, f: F) -> Items<&mut [T]> {
        Items(self.as_parallel_slice_mut().split_mut(|x| f(x)).collect())
    }
    fn par_sort(&mut self)
    where
        T: Ord,
    {
        self.as_parallel_slice_mut().sort()
    }
    fn par_sort_by<F: Fn(&T, &T) -> Ordering + Sync>(&mut self, f: F) {
        self.as_parallel_slice_mut().sort_by(f)
    }
    fn par_sort_by_key<K: Ord, F: Fn(&T) -> K + Sync>(&mut self, f: F) {
        self.as_parallel_slice_mut().sort_by_key(f)
    }
    fn par_sort_by_cached_key<K: Ord + Send, F: Fn(&T) -> K + Sync>(&mut self, f: F) {
        self.as_parallel_slice_mut().sort_by_cached_key(f)
    }
    fn par_sort_unstable(&mut self)
    where
        T: Ord,
    {
        self.as_parallel_slice_mut().sort_unstable()
    }
    fn par_sort_unstable_by<F: Fn(&T, &T) -> Ordering + Sync>(&mut self, f: F) {
        self.as_parallel_slice_mut().sort_unstable_by(f)
    }
    fn par_sort_unstable_by_key<K: Ord, F: Fn(&T) -> K + Sync>(&mut self, f: F) {
        self.as_parallel_slice_mut().sort_unstable_by_key(f)
    }
}
impl<T: Send> ParallelSliceMut<T> for [T] {
    fn as_parallel_slice_mut(&mut self) -> &mut [T] {
        self
    }
}
pub trait ParallelString {
    fn as_parallel_string(&self) -> &str;
    fn par_lines(&self) -> Items<&str> {
        Items(self.as_parallel_string().lines().collect())
    }
    fn par_chars(&self) -> Items<char> {
        Items(self.as_parallel_string().chars().collect())
    }
    fn par_char_indices(&self) -> Items<(usize, char)> {
        Items(self.as_parallel_string().char_indices().collect())
    }
    fn par_bytes(&self) -> Items<u8> {
        Items(self.as_parallel_string().bytes().collect())
    }
    fn par_split_whitespace(&self) -> Items<&str> {
        Items(self.as_parallel_string().split_whitespace().collect())
    }
    fn par_split_ascii_whitespace(&self) -> Items<&str> {
        Items(self.as_parallel_string().split_ascii_whitespace().collect())
    }
}
impl ParallelString for str {
    fn as_parallel_string(&self) -> &str {
        self
    }
}

// ---- functions

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    let (mut ra, mut rb) = (None, None);
    {
        let (pa, pb) = (&mut ra, &mut rb);
        rt::run_tasks(vec![Box::new(move || *pa = Some(a())), Box::new(move || *pb = Some(b()))]);
    }
    (ra.expect("task aborted"), rb.expect("task aborted"))
}

pub struct Scope<'scope> {
    q: Mutex<Vec<Box<dyn FnOnce(&Scope<'scope>) + Send + 'scope>>>,
}
impl<'scope> Scope<'scope> {
    pub fn spawn<F: FnOnce(&Scope<'scope>) + Send + 'scope>(&self, f: F) {
        self.q.lock().unwrap().push(Box::new(f))
    }
}
pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    let s = Scope { q: Mutex::new(Vec::new()) };
    let r = op(&s);
    loop {
        let q = std::mem::take(&mut *s.q.lock().unwrap());
        if q.is_empty() {
            return r;
        }
        let sr = &s;
        rt::run_tasks(q.into_iter().map(|t| Box::new(move || t(sr)) as Box<dyn FnOnce() + Send + '_>).collect());
    }
}
pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    let s = Scope { q: Mutex::new(Vec::new()) };
    let r = op(&s);
    loop {
        let q = std::mem::take(&mut *s.q.lock().unwrap());
        if q.is_empty() {
            return r;
        }
        let sr = &s;
        rt::run_tasks(q.into_iter().map(|t| Box::new(move || t(sr)) as Box<dyn FnOnce() + Send + '_>).collect());
    }
}
pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    if rt::in_execution() {
        rt::spawn_raw(Box::new(f));
    } else {
        f()
    }
}
pub fn current_num_threads() -> usize {
    4
}
pub fn current_thread_index() -> Option<usize> {
    None
}
pub fn max_num_threads() -> usize {
    1024
}

#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl std::fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "thread pool")
    }
}
impl std::error::Error for ThreadPoolBuildError {}
#[derive(Default)]
pub struct ThreadPoolBuilder {
    n: usize,
}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn num_threads(mut self, n: usize) -> Self {
        self.n = n;
        self
    }
    pub fn stack_size(self, _n: usize) -> Self {
        self
    }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _f: F) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool { n: if self.n == 0 { 4 } else { self.n } })
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}
pub struct ThreadPool {
    n: usize,
}
impl ThreadPool {
    pub fn install<OP: FnOnce() -> R + Send, R: Send>(&self, op: OP) -> R {
        op()
    }
    pub fn current_num_threads(&self) -> usize {
        self.n
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        join(a, b)
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        scope(op)
    }
}
