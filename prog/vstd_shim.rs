//! The part of the Verus library the program is compiled against: the real one, except that traits of
//! ghost views ask for nothing and a sequence of bytes remembers which page it stands for.
#![allow(warnings)]
extern crate vstd as real_vstd;
pub use real_vstd::*;
pub mod view { pub use real_vstd::view::DeepView; pub trait View { type V; } }
pub mod string { pub use real_vstd::string::*; pub use crate::view::View; }
pub mod tokens {
    pub use real_vstd::tokens::*;
    pub trait ValueToken<V>: Sized {}
    pub trait UniqueValueToken<V>: ValueToken<V> {}
    pub trait KeyValueToken<K, V>: Sized {}
    pub trait UniqueKeyValueToken<K, V>: KeyValueToken<K, V> {}
    pub trait CountToken: Sized {}
    pub trait MonotonicCountToken: Sized {}
    pub trait ElementToken<E>: Sized {}
    pub trait UniqueElementToken<E>: ElementToken<E> {}
    pub trait SimpleToken: Sized {}
    pub struct MultisetToken<E, T>(core::marker::PhantomData<(E, T)>);
    pub struct SetToken<E, T>(core::marker::PhantomData<(E, T)>);
    pub struct MapToken<K, V, T>(core::marker::PhantomData<(K, V, T)>);
}
pub mod seq {
    pub use real_vstd::seq::*;
    /// ghost in the sources; a raw page is one, and here carries the number of the page image
    pub struct Seq<A>(pub u64, core::marker::PhantomData<A>);
    impl<A> Seq<A> { pub fn page(n: u64) -> Self { Seq(n, core::marker::PhantomData) } }
    impl<A> Clone for Seq<A> { fn clone(&self) -> Self { Seq(self.0, core::marker::PhantomData) } }
    impl<A> Copy for Seq<A> {}
}
pub mod hash_map {
    use std::collections::HashMap;
    pub struct HashMapWithView<K, V>(HashMap<K, V>);
    impl<K: Eq + std::hash::Hash, V> HashMapWithView<K, V> {
        pub fn new() -> Self { Self(HashMap::new()) }
        pub fn with_capacity(n: usize) -> Self { Self(HashMap::with_capacity(n)) }
        pub fn len(&self) -> usize { self.0.len() }
        pub fn insert(&mut self, k: K, v: V) { self.0.insert(k, v); }
        pub fn remove(&mut self, k: &K) { self.0.remove(k); }
        pub fn contains_key(&self, k: &K) -> bool { self.0.contains_key(k) }
        pub fn get(&self, k: &K) -> Option<&V> { self.0.get(k) }
        pub fn clear(&mut self) { self.0.clear() }
    }
}
pub mod prelude {
    pub use real_vstd::prelude::*;
    pub use crate::view::View;
    pub use crate::seq::Seq;
    pub use crate::tokens::{ValueToken, UniqueValueToken, KeyValueToken, UniqueKeyValueToken, CountToken, ElementToken, UniqueElementToken, SimpleToken};
}
pub mod pervasive { pub use real_vstd::pervasive::*; }
