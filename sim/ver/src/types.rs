//! What the versions have in common, with their operations erased.
use crate::dynx::*;
use crate::fmt::{dec, enc, Fmt, Rd};
use crate::gen::*;
pub use crate::model::*;
use musli::mode::{Binary, Text};
use musli::{Decode, Encode};
use simcore::*;
use std::any::Any;
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::net::IpAddr;
use std::num::{NonZeroU16, Wrapping};
use std::ops::Range;
pub use Need::*;

/// The same as what it wraps.
#[derive(Debug, PartialEq, Default, Encode, Decode)]
#[musli(transparent)]
pub struct TrU32(pub u32);
#[derive(Debug, PartialEq, Default, Encode, Decode)]
#[musli(transparent)]
pub struct TrStr {
    pub inner: String,
}
macro_rules! wrap {
    ($n:ident, $f:tt, $t:ty) => {
        impl Gen for $n {
            fn gen() -> Self {
                $n { $f: Gen::gen() }
            }
        }
        impl Model for $n {
            fn model(&self) -> M {
                self.$f.model()
            }
            fn schema() -> T {
                <$t>::schema()
            }
        }
    };
}
wrap!(TrU32, 0, u32);
wrap!(TrStr, inner, String);

pub fn seven() -> u32 {
    7
}

/// One version of one type.
pub trait Ver: Sync {
    fn gen(&self) -> Box<dyn Any>;
    fn show(&self, v: &dyn Any) -> String;
    fn model(&self, v: &dyn Any) -> M;
    fn schema(&self) -> T;
    fn enc(&self, f: Fmt, cx: Cx, w: &mut W<'_>, v: &dyn Any) -> Result<Option<usize>, ()>;
    fn dec(&self, f: Fmt, rd: Rd, cx: Cx, b: &mut &[u8]) -> Result<Box<dyn Any>, ()>;
}
pub struct S<X>(PhantomData<fn() -> X>);
impl<X> Ver for S<X>
where
    X: 'static + Gen + Model + std::fmt::Debug + Encode<Binary> + Encode<Text>,
    X: for<'de> Decode<'de, Binary, Da> + for<'de> Decode<'de, Text, Da>,
{
    fn gen(&self) -> Box<dyn Any> {
        Box::new(X::gen())
    }
    fn show(&self, v: &dyn Any) -> String {
        format!("{:?}", v.downcast_ref::<X>().unwrap())
    }
    fn model(&self, v: &dyn Any) -> M {
        v.downcast_ref::<X>().unwrap().model()
    }
    fn schema(&self) -> T {
        X::schema()
    }
    fn enc(&self, f: Fmt, cx: Cx, w: &mut W<'_>, v: &dyn Any) -> Result<Option<usize>, ()> {
        enc(f, cx, w, v.downcast_ref::<X>().unwrap())
    }
    fn dec(&self, f: Fmt, rd: Rd, cx: Cx, b: &mut &[u8]) -> Result<Box<dyn Any>, ()> {
        let v: X = dec(f, rd, cx, b)?;
        Ok(galloc::untracked(|| Box::new(v)))
    }
}

#[path = "versions.rs"]
mod versions;
pub use versions::{FAMILIES, VERSIONS};
