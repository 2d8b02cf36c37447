//! The combinations of node sizes, pointer kind and element types that are driven.
use crate::kit::*;
use crate::mach::{Exec, Mach};
use crate::threads::{Crew, Threaded};
use std::marker::PhantomData;
use palmtree::{Shared, SyncShared, Unique};

type Maker = fn() -> Box<dyn Exec>;
macro_rules! kits {
    ($($name:literal: $ty:ident, $c:ident, $p:ident;)*) => {
        vec![$(($name, (|| Box::new(Mach::<$ty, $c<$p>>::new(stringify!($p) != "Unique"))) as Maker)),*]
    };
}
pub fn all() -> Vec<(&'static str, Maker)> {
    #[allow(unused_mut)]
    let mut v = core();
    #[cfg(feature = "wide")]
    v.append(&mut wide());
    v
}
/// Enough for most properties: small odd and even nodes, unequal ones, every pointer kind.
fn core() -> Vec<(&'static str, Maker)> {
    kits! {
    "int44u": Int, C44, Unique;
    "int55a": Int, C55, SyncShared;
    "int64u": Int, C64, Unique;
    "tok44r": Tok, C44, Shared;
    "tok54u": Tok, C54, Unique;
    "tok45a": Tok, C45, SyncShared;
    "tokz44r": TokZ, C44, Shared;
    "str67r": Str, C67, Shared;
    "par44r": Par, C44, Shared;
    }
}
#[cfg(feature = "wide")]
fn wide() -> Vec<(&'static str, Maker)> {
    kits! {
    "int44r": Int, C44, Shared;
    "int44a": Int, C44, SyncShared;
    "int55u": Int, C55, Unique;
    "int45a": Int, C45, SyncShared;
    "int54r": Int, C54, Shared;
    "int67u": Int, C67, Unique;
    "int64a": Int, C64, SyncShared;
    "int5x64u": Int, C5x64, Unique;
    "int64x4r": Int, C64x4, Shared;
    "int33u": Int, C33, Unique;
    "int66u": Int, C66, Unique;
    "tok44u": Tok, C44, Unique;
    "tok44a": Tok, C44, SyncShared;
    "tok55r": Tok, C55, Shared;
    "tok45u": Tok, C45, Unique;
    "tok76a": Tok, C76, SyncShared;
    "tok64r": Tok, C64, Shared;
    "tok7x16u": Tok, C7x16, Unique;
    "str76u": Str, C76, Unique;
    "str16x5a": Str, C16x5, SyncShared;
    "alv44u": AlV, C44, Unique;
    "alv55r": AlV, C55, Shared;
    "alv44a": AlV, C44, SyncShared;
    "alk45a": AlK, C45, SyncShared;
    "alk54r": AlK, C54, Shared;
    "zv44u": Zv, C44, Unique;
    "zv64r": Zv, C64, Shared;
    "zv55a": Zv, C55, SyncShared;
    "zk44r": Zk, C44, Shared;
    "zk64u": Zk, C64, Unique;
    "byte44r": Byte, C44, Shared;
    "byte64u": Byte, C64, Unique;
    "big4x16u": Big, C4x16, Unique;
    "big55r": Big, C55, Shared;
    "rev44a": Rev, C44, SyncShared;
    "rev66u": Rev, C66, Unique;
    "par55a": Par, C55, SyncShared;
    "par67u": Par, C67, Unique;
    "int300u": Int, C300, Unique;
    "int512x4u": Int, C512x4, Unique;
    "tokz55a": TokZ, C55, SyncShared;
    "tokz64u": TokZ, C64, Unique;
    "int5x512r": Int, C5x512, Shared;
    "tok130x4a": Tok, C130x4, SyncShared;
    }
}
/// Thread-safe trees, for programs of several threads.
pub fn crew(name: &str) -> Box<dyn Threaded> {
    match name {
        "tok45a" => Box::new(Crew::<Tok, C45<SyncShared>>(PhantomData)),
        "int55a" => Box::new(Crew::<Int, C55<SyncShared>>(PhantomData)),
        #[cfg(feature = "wide")]
        "tok44a" => Box::new(Crew::<Tok, C44<SyncShared>>(PhantomData)),
        #[cfg(feature = "wide")]
        "tok76a" => Box::new(Crew::<Tok, C76<SyncShared>>(PhantomData)),
        #[cfg(feature = "wide")]
        "int64a" => Box::new(Crew::<Int, C64<SyncShared>>(PhantomData)),
        _ => {
            eprintln!("unknown crew {}", name);
            std::process::exit(2)
        }
    }
}
pub fn make(name: &str) -> Box<dyn Exec> {
    match all().into_iter().find(|k| k.0 == name) {
        Some(k) => (k.1)(),
        None => {
            eprintln!("unknown kit {}", name);
            std::process::exit(2)
        }
    }
}
