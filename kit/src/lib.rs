#![allow(clippy::all)]
macro_rules! entries {
    ($prop:literal; $($name:ident $kind:ident $covers:literal),* $(,)?) => {
        pub fn entries() -> Vec<$crate::Entry> { vec![$($crate::Entry { prop: $prop, name: stringify!($name), f: $name::<$crate::nd::Src>, kind: $crate::Kind::$kind, covers: $covers }),*] }
    };
}

/// private pieces of /repo, compiled from its current text
pub mod ext {
    #![allow(dead_code)]
    #[cfg(has_utils)] #[path = "/repo/src/utils/mod.rs"] pub mod utils;
    #[cfg(has_math)] #[path = "/repo/src/math/utils.rs"] pub mod math;
    #[cfg(has_autobreak)] #[path = "/repo/src/codecs/pnm/autobreak.rs"] pub mod autobreak;
    #[cfg(has_entropy)] #[path = "/repo/src/codecs/jpeg/entropy.rs"] pub mod entropy;
    #[cfg(has_jpegbits)] pub mod jpegbits { include!(concat!(env!("OUT_DIR"), "/jpegbits.rs")); }
    #[cfg(has_readbuffer)] pub mod readbuffer { include!(concat!(env!("OUT_DIR"), "/readbuffer.rs")); }
}
pub mod nd;
pub use nd::*;
pub mod img;
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c06;
pub mod c05;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind { /// random inputs, edge biased
    Fuzz, /// exhaustive within the stated bounds, as far as time allows
    Enum, /// exhaustive within the stated bounds, always to the end
    EnumFull }
pub struct Entry { pub prop: &'static str, pub name: &'static str, pub f: fn(&mut Src), pub kind: Kind, pub covers: &'static str }

pub fn registry() -> Vec<Entry> {
    let mut v = vec![];
    v.extend(c01::entries());
    v.extend(c03::entries());
    v.extend(c04::entries());
    v.extend(c02::entries());
    v.extend(c05::entries());
    v.extend(c06::entries());
    v.extend(c07::entries());
    v.extend(c08::entries());
    v.extend(c09::entries());
    v.extend(c10::entries());
    v.extend(c11::entries());
    v.extend(c12::entries());
    v.extend(c13::entries());
    v.extend(c14::entries());
    v.extend(c15::entries());
    v.extend(c16::entries());
    v.extend(c17::entries());
    v.extend(c18::entries());
    v.extend(c19::entries());
    v.extend(c20::entries());
    v.extend(c21::entries());
    v
}
