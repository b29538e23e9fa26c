//! What a value means, independent of the version of its type, and what a
//! version makes of a value another one has sent.
use crate::gen::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum M {
    Leaf(String),
    Rec(BTreeMap<u16, M>),
    Seq(Vec<M>),
    Map(Vec<(String, M)>),
    Opt(Option<Box<M>>),
    Var(u16, Box<M>),
}
pub enum Need {
    /// The field must have been sent.
    Must,
    /// The field takes this value if it was not.
    Dflt(M),
    /// As above, and it is not sent if it is none.
    Omit(M),
}
pub enum T {
    Leaf,
    Rec(Vec<(u16, Need, T)>),
    Seq(Box<T>),
    Opt(Box<T>),
    /// Variants, and the one that stands for those not known.
    Var(Vec<(u16, T)>, Option<u16>),
}

/// The message of a value: what is left out is not in it.
pub fn sent(m: &M, t: &T) -> M {
    match (m, t) {
        (M::Rec(f), T::Rec(fs)) => M::Rec(
            f.iter()
                .filter_map(|(id, m)| {
                    let (_, need, t) = fs.iter().find(|f| f.0 == *id).unwrap();
                    if matches!(need, Need::Omit(_)) && *m == M::Opt(None) {
                        return None;
                    }
                    Some((*id, sent(m, t)))
                })
                .collect(),
        ),
        (M::Seq(v), T::Seq(t)) => M::Seq(v.iter().map(|m| sent(m, t)).collect()),
        (M::Map(v), T::Seq(t)) => M::Map(v.iter().map(|(k, m)| (k.clone(), sent(m, t))).collect()),
        (M::Opt(v), T::Opt(t)) => M::Opt(v.as_ref().map(|m| Box::new(sent(m, t)))),
        (M::Var(id, m), T::Var(vs, _)) => M::Var(*id, Box::new(sent(m, &vs.iter().find(|v| v.0 == *id).unwrap().1))),
        _ => m.clone(),
    }
}
/// What a version receives out of a message, or what it lacks.
pub fn received(m: &M, t: &T) -> Result<M, String> {
    Ok(match (m, t) {
        (M::Rec(f), T::Rec(fs)) => {
            let mut o = BTreeMap::new();
            for (id, need, t) in fs {
                let v = match (f.get(id), need) {
                    (Some(m), _) => received(m, t)?,
                    (None, Need::Dflt(d) | Need::Omit(d)) => d.clone(),
                    (None, Need::Must) => return Err(format!("field {id}")),
                };
                o.insert(*id, v);
            }
            M::Rec(o)
        }
        (M::Seq(v), T::Seq(t)) => M::Seq(v.iter().map(|m| received(m, t)).collect::<Result<_, _>>()?),
        (M::Map(v), T::Seq(t)) => M::Map(v.iter().map(|(k, m)| Ok((k.clone(), received(m, t)?))).collect::<Result<_, String>>()?),
        (M::Opt(None), T::Opt(_)) => M::Opt(None),
        (M::Opt(Some(m)), T::Opt(t)) => M::Opt(Some(Box::new(received(m, t)?))),
        (M::Var(id, m), T::Var(vs, fallback)) => match vs.iter().find(|v| v.0 == *id) {
            Some((_, t)) => M::Var(*id, Box::new(received(m, t)?)),
            None => match fallback {
                Some(f) => M::Var(*f, Box::new(M::Rec(BTreeMap::new()))),
                None => return Err(format!("variant {id}")),
            },
        },
        (M::Leaf(_), T::Leaf) => m.clone(),
        (m, _) => panic!("model {m:?} of another type"),
    })
}
/// The message holds nothing the version does not know.
pub fn known(m: &M, t: &T) -> bool {
    match (m, t) {
        (M::Rec(f), T::Rec(fs)) => f.iter().all(|(id, m)| fs.iter().any(|f| f.0 == *id && known(m, &f.2))),
        (M::Seq(v), T::Seq(t)) => v.iter().all(|m| known(m, t)),
        (M::Map(v), T::Seq(t)) => v.iter().all(|m| known(&m.1, t)),
        (M::Opt(Some(m)), T::Opt(t)) => known(m, t),
        (M::Var(id, m), T::Var(vs, _)) => vs.iter().any(|v| v.0 == *id && known(m, &v.1)),
        _ => true,
    }
}

pub trait Model {
    fn model(&self) -> M;
    fn schema() -> T;
}
macro_rules! leaf {
    ($($t:ty),* $(,)?) => {$(impl Model for $t {
        fn model(&self) -> M { M::Leaf(format!("{self:?}")) }
        fn schema() -> T { T::Leaf }
    })*};
}
leaf!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, bool, char, String, F32, F64, (), [u16; 3], (u8, String), (u32, i64, Vec<String>), Box<str>, std::net::IpAddr, std::num::NonZeroU16, std::num::Wrapping<i8>, std::ops::Range<u32>, Result<u32, String>);
impl<X: Model> Model for Vec<X> {
    fn model(&self) -> M {
        M::Seq(self.iter().map(|v| v.model()).collect())
    }
    fn schema() -> T {
        T::Seq(Box::new(X::schema()))
    }
}
impl<X: Model> Model for BTreeMap<String, X> {
    fn model(&self) -> M {
        M::Map(self.iter().map(|(k, v)| (k.clone(), v.model())).collect())
    }
    fn schema() -> T {
        T::Seq(Box::new(X::schema()))
    }
}
impl<X: Model> Model for BTreeMap<u32, X> {
    fn model(&self) -> M {
        M::Map(self.iter().map(|(k, v)| (k.to_string(), v.model())).collect())
    }
    fn schema() -> T {
        T::Seq(Box::new(X::schema()))
    }
}
impl<X: Model> Model for Option<X> {
    fn model(&self) -> M {
        M::Opt(self.as_ref().map(|v| Box::new(v.model())))
    }
    fn schema() -> T {
        T::Opt(Box::new(X::schema()))
    }
}
impl<X: Model> Model for Box<X> {
    fn model(&self) -> M {
        (**self).model()
    }
    fn schema() -> T {
        X::schema()
    }
}
