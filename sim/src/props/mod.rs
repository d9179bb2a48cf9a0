pub mod common;
pub mod crinex;
pub mod decode;
pub mod faults;
pub mod editing;
pub mod history;
pub mod layout;
pub mod notes;
pub mod products;
pub mod sessions;
pub mod write;

use crate::ctx::{Ctx, Res};

pub struct PropDef {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> Res,
    pub quick_runs: u64,
    pub max_classes: usize,
    /// re-execute many runs and treat a difference as a violation
    pub recheck: bool,
    pub rule: &'static str,
    pub faults: &'static [&'static str],
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

pub static ALL: &[&PropDef] = &[&faults::C01, &faults::C02, &faults::C03, &faults::C04, &faults::C05, &faults::C06, &decode::C07, &write::C08, &crinex::C09, &crinex::C10, &crinex::C11, &sessions::C12, &sessions::C13, &sessions::C14, &decode::C15, &decode::C16, &decode::C17, &decode::C18, &decode::C19, &sessions::C20, &write::C21, &sessions::C22, &history::C23, &history::C29, &history::C27, &history::C28, &history::C30, &history::C31, &history::C32, &history::C33, &history::C36, &products::C34, &decode::C35, &editing::C37, &notes::C38, &layout::C39];

pub fn find(id: &str) -> &'static PropDef {
    ALL.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    })
}
