mod api;
mod bm;
mod bmcustom;
mod builders;
pub mod builds;
mod dm;
mod encoders;
mod history;
mod meta;
mod shown;
pub mod threads;

use crate::engine::Prop;

pub fn get(id: &str) -> Option<Box<dyn Prop>> {
    Some(match id {
        "C10" => Box::new(dm::builtin()),
        "C11" => Box::new(dm::programs()),
        "C25" => Box::new(api::Algebra),
        "C26" => Box::new(api::Slices),
        "C27" => Box::new(api::serialized()),
        "C30" => Box::new(api::Parsers),
        "C01" => Box::new(meta::total()),
        "C06" => Box::new(meta::pairs()),
        "C14" => Box::new(meta::mra_pairs()),
        "C19" => Box::new(meta::limits()),
        "C29" => Box::new(meta::insensitive()),
        "C20" => Box::new(bm::shipped()),
        "C28" => Box::new(bm::embedded()),
        "C02" => Box::new(history::history()),
        "C03" => Box::new(threads::threads()),
        "C21" => Box::new(bmcustom::programs()),
        "C22" => Box::new(bmcustom::guessing()),
        "C23" => Box::new(bmcustom::names()),
        "C24" => Box::new(bmcustom::faults()),
        "C31" => Box::new(builders::builders()),
        "C32" => Box::new(builders::compared()),
        "C33" => Box::new(builds::builds()),
        "C34" => Box::new(shown::shown()),
        "C12" => Box::new(dm::diagnosis()),
        _ => return encoders::get(id),
    })
}

/// Separator between the parts of a case.
pub const SEP: char = '\u{10FFFD}';
