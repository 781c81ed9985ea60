use crate::engine::Prop;
mod enc;
mod dec;
mod api;
#[cfg(feature = "async")]
mod asy;
pub mod cli;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(enc::props());
    v.extend(dec::props());
    v.extend(api::props());
    #[cfg(feature = "async")]
    v.extend(asy::props());
    v.extend(cli::props());
    v
}
