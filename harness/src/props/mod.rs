pub mod bytes;
pub mod cli;
pub mod diffgen;
pub mod files;
pub mod seqs;
pub mod text;
pub mod unified;

use crate::engine::Property;

pub fn all() -> Vec<Property> {
    let mut v = vec![];
    v.extend(diffgen::props());
    v.extend(seqs::props());
    v.extend(text::props());
    v.extend(bytes::props());
    v.extend(files::props());
    v.extend(cli::props());
    v.extend(unified::props());
    v
}
