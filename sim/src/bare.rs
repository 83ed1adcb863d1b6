//! HashMap as the simulator's types use it. The library knows it only with its std feature; without,
//! a stand-in takes its place, so that the same simulator compiles, and no type with one is drawn.

#[cfg(feature = "std")]
pub use std::collections::HashMap;
#[cfg(not(feature = "std"))]
pub use stand_in::HashMap;

#[cfg(not(feature = "std"))]
mod stand_in {
    use miniserde::de::Visitor;
    use miniserde::ser::Fragment;
    use miniserde::{Deserialize, Serialize};
    use std::collections::HashMap as Std;
    use std::hash::{BuildHasher, Hash, RandomState};
    use std::ops::{Deref, DerefMut};

    pub struct HashMap<K, V, H = RandomState>(Std<K, V, H>);
    impl<K, V, H> HashMap<K, V, H> {
        pub fn with_hasher(h: H) -> Self {
            HashMap(Std::with_hasher(h))
        }
    }
    impl<K, V, H: Default> Default for HashMap<K, V, H> {
        fn default() -> Self {
            HashMap(Std::default())
        }
    }
    impl<K, V, H> Deref for HashMap<K, V, H> {
        type Target = Std<K, V, H>;
        fn deref(&self) -> &Self::Target {
            &self.0
        }
    }
    impl<K, V, H> DerefMut for HashMap<K, V, H> {
        fn deref_mut(&mut self) -> &mut Self::Target {
            &mut self.0
        }
    }
    impl<K: Eq + Hash, V, H: BuildHasher + Default> FromIterator<(K, V)> for HashMap<K, V, H> {
        fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self {
            HashMap(i.into_iter().collect())
        }
    }
    impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> {
        fn from(a: [(K, V); N]) -> Self {
            HashMap(Std::from(a))
        }
    }
    impl<'a, K, V, H> IntoIterator for &'a HashMap<K, V, H> {
        type Item = (&'a K, &'a V);
        type IntoIter = std::collections::hash_map::Iter<'a, K, V>;
        fn into_iter(self) -> Self::IntoIter {
            self.0.iter()
        }
    }
    impl<K, V, H> IntoIterator for HashMap<K, V, H> {
        type Item = (K, V);
        type IntoIter = std::collections::hash_map::IntoIter<K, V>;
        fn into_iter(self) -> Self::IntoIter {
            self.0.into_iter()
        }
    }
    impl<K, V, H> Serialize for HashMap<K, V, H> {
        fn begin(&self) -> Fragment<'_> {
            unreachable!("a hash map in the build without std")
        }
    }
    impl<K, V, H> Deserialize for HashMap<K, V, H> {
        fn begin(_: &mut Option<Self>) -> &mut dyn Visitor {
            unreachable!("a hash map in the build without std")
        }
    }
}
