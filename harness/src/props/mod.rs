//! One module per property.
use crate::engine::Prop;

pub mod btree;
pub mod cli;
pub mod damage;
pub mod forge;
pub mod input;
pub mod layout;
pub mod query;
pub mod roundtrip;
pub mod refuse;
pub mod remote;
pub mod rtree;
pub mod schema;
pub mod stats;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(roundtrip::props());
    v.extend(btree::props());
    v.extend(rtree::props());
    v.extend(query::props());
    v.extend(layout::props());
    v.extend(remote::props());
    v.extend(damage::props());
    v.extend(cli::props());
    v.extend(input::props());
    v.extend(refuse::props());
    v.extend(schema::props());
    v.extend(stats::props());
    v
}
