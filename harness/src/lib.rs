//! Any user of serde, as the analysis sees it: a value of every shape of the data model.

pub mod de;
pub mod ser;
