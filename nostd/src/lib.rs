//! A program without std that uses the library: it has to compile wherever core and alloc do.
#![no_std]
extern crate alloc;

#[cfg(feature = "user")]
pub mod user {
    use alloc::borrow::{Cow, ToOwned};
    use alloc::boxed::Box;
    use alloc::collections::BTreeMap;
    use alloc::string::String;
    use alloc::vec::Vec;
    use miniserde::de::{self, Visitor};
    use miniserde::json::{self, Array, Number, Object, Value};
    use miniserde::ser::{self, Fragment};
    use miniserde::{make_place, Deserialize, Result, Serialize};

    #[derive(Serialize, Deserialize, Clone, Copy)]
    pub enum Level {
        Low,
        #[serde(rename = "high level")]
        High,
    }

    #[derive(Serialize, Deserialize)]
    pub struct Whole<T> {
        pub level: Level,
        #[serde(rename = "map of all")]
        pub map: BTreeMap<String, Option<Box<Whole<T>>>>,
        pub list: Vec<(u64, i8)>,
        pub fixed: [f32; 3],
        pub any: Value,
        pub own: T,
    }

    #[derive(Serialize)]
    pub struct Lent<'a> {
        pub text: &'a str,
        pub cow: Cow<'a, str>,
        pub slice: &'a [bool],
    }

    pub struct Unit;
    make_place!(Place);
    impl Visitor for Place<Unit> {
        fn null(&mut self) -> Result<()> {
            self.out = Some(Unit);
            Ok(())
        }
        fn seq(&mut self) -> Result<Box<dyn de::Seq + '_>> {
            <dyn Visitor>::ignore().seq()
        }
    }
    impl Deserialize for Unit {
        fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
            Place::new(out)
        }
    }
    struct Once(bool);
    impl ser::Map for Once {
        fn next(&mut self) -> Option<(Cow<'_, str>, &dyn Serialize)> {
            core::mem::take(&mut self.0).then_some((Cow::Borrowed("k"), &()))
        }
    }
    impl Serialize for Unit {
        fn begin(&self) -> Fragment<'_> {
            Fragment::Map(Box::new(Once(true)))
        }
    }

    pub fn relay(text: &str) -> Result<String> {
        let whole: Whole<Unit> = json::from_str(text)?;
        let mut object = Object::new();
        object.insert("n".to_owned(), Value::Number(Number::U64(1)));
        let list: Array = [whole.any.clone(), Value::Object(object)].into_iter().collect();
        Ok(json::to_string(&(whole, Value::Array(list))))
    }

    pub fn message(error: miniserde::Error) -> String {
        alloc::format!("{error} {error:?}")
    }
}
