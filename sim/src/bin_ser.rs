//! Minimal binary serialisation, used to hand the simulated world from one
//! node process (lifetime) to the next.
use std::collections::{BTreeMap, BTreeSet};

pub trait Bin: Sized {
    fn put(&self, o: &mut Vec<u8>);
    fn get(i: &mut &[u8]) -> Self;
    fn to_vec(&self) -> Vec<u8> {
        let mut v = vec![];
        self.put(&mut v);
        v
    }
}

macro_rules! ints { ($($t:ty),*) => {$(
    impl Bin for $t {
        fn put(&self, o: &mut Vec<u8>) { o.extend_from_slice(&self.to_le_bytes()) }
        fn get(i: &mut &[u8]) -> Self {
            const N: usize = std::mem::size_of::<$t>();
            let (a, b) = i.split_at(N);
            *i = b;
            <$t>::from_le_bytes(a.try_into().unwrap())
        }
    }
)*}}
ints!(u8, u16, u32, u64, i32, i64, i128, u128, usize);

impl Bin for bool {
    fn put(&self, o: &mut Vec<u8>) {
        o.push(*self as u8)
    }
    fn get(i: &mut &[u8]) -> Self {
        u8::get(i) != 0
    }
}
impl Bin for () {
    fn put(&self, _: &mut Vec<u8>) {}
    fn get(_: &mut &[u8]) -> Self {}
}
impl Bin for String {
    fn put(&self, o: &mut Vec<u8>) {
        self.len().put(o);
        o.extend_from_slice(self.as_bytes())
    }
    fn get(i: &mut &[u8]) -> Self {
        let n = usize::get(i);
        let (a, b) = i.split_at(n);
        *i = b;
        String::from_utf8(a.to_vec()).unwrap()
    }
}
impl<T: Bin> Bin for Vec<T> {
    fn put(&self, o: &mut Vec<u8>) {
        self.len().put(o);
        for x in self {
            x.put(o)
        }
    }
    fn get(i: &mut &[u8]) -> Self {
        let n = usize::get(i);
        (0..n).map(|_| T::get(i)).collect()
    }
}
impl<T: Bin> Bin for Option<T> {
    fn put(&self, o: &mut Vec<u8>) {
        match self {
            None => o.push(0),
            Some(x) => {
                o.push(1);
                x.put(o)
            }
        }
    }
    fn get(i: &mut &[u8]) -> Self {
        if u8::get(i) == 0 {
            None
        } else {
            Some(T::get(i))
        }
    }
}
impl<T: Bin, E: Bin> Bin for Result<T, E> {
    fn put(&self, o: &mut Vec<u8>) {
        match self {
            Ok(x) => {
                o.push(0);
                x.put(o)
            }
            Err(x) => {
                o.push(1);
                x.put(o)
            }
        }
    }
    fn get(i: &mut &[u8]) -> Self {
        if u8::get(i) == 0 {
            Ok(T::get(i))
        } else {
            Err(E::get(i))
        }
    }
}
impl<K: Bin + Ord, V: Bin> Bin for BTreeMap<K, V> {
    fn put(&self, o: &mut Vec<u8>) {
        self.len().put(o);
        for (k, v) in self {
            k.put(o);
            v.put(o)
        }
    }
    fn get(i: &mut &[u8]) -> Self {
        let n = usize::get(i);
        (0..n).map(|_| (K::get(i), V::get(i))).collect()
    }
}
impl<K: Bin + Ord> Bin for BTreeSet<K> {
    fn put(&self, o: &mut Vec<u8>) {
        self.len().put(o);
        for k in self {
            k.put(o)
        }
    }
    fn get(i: &mut &[u8]) -> Self {
        let n = usize::get(i);
        (0..n).map(|_| K::get(i)).collect()
    }
}
impl<A: Bin, B: Bin> Bin for (A, B) {
    fn put(&self, o: &mut Vec<u8>) {
        self.0.put(o);
        self.1.put(o)
    }
    fn get(i: &mut &[u8]) -> Self {
        let a = A::get(i);
        (a, B::get(i))
    }
}
impl<A: Bin, B: Bin, C: Bin> Bin for (A, B, C) {
    fn put(&self, o: &mut Vec<u8>) {
        self.0.put(o);
        self.1.put(o);
        self.2.put(o)
    }
    fn get(i: &mut &[u8]) -> Self {
        let a = A::get(i);
        let b = B::get(i);
        (a, b, C::get(i))
    }
}
impl<A: Bin, B: Bin, C: Bin, D: Bin> Bin for (A, B, C, D) {
    fn put(&self, o: &mut Vec<u8>) {
        self.0.put(o);
        self.1.put(o);
        self.2.put(o);
        self.3.put(o)
    }
    fn get(i: &mut &[u8]) -> Self {
        let a = A::get(i);
        let b = B::get(i);
        let c = C::get(i);
        (a, b, c, D::get(i))
    }
}
impl<T: Bin + Copy + Default, const N: usize> Bin for [T; N] {
    fn put(&self, o: &mut Vec<u8>) {
        for x in self {
            x.put(o)
        }
    }
    fn get(i: &mut &[u8]) -> Self {
        let mut a = [T::default(); N];
        for x in a.iter_mut() {
            *x = T::get(i)
        }
        a
    }
}

#[macro_export]
macro_rules! binstruct {
    ($(#[$m:meta])* pub struct $n:ident { $(pub $f:ident : $t:ty),* $(,)? }) => {
        $(#[$m])*
        pub struct $n { $(pub $f: $t),* }
        impl $crate::bin_ser::Bin for $n {
            fn put(&self, o: &mut Vec<u8>) { $( $crate::bin_ser::Bin::put(&self.$f, o); )* }
            fn get(i: &mut &[u8]) -> Self { $( let $f = $crate::bin_ser::Bin::get(i); )* $n { $($f),* } }
        }
    };
}
