//! The checks, one per property.
use crate::ctx::{Ctx, R};

mod constants;
pub mod effects;
mod errors;
mod forms;
pub mod growth;
mod py;
mod reading;
mod swap;
mod rc;
mod tables;
pub mod repeat;
mod text;
mod threads;

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    /// how cases are made and what makes one non-trivial
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// 0: the default
    pub shards: usize,
    pub min_nontrivial: Option<u64>,
    pub run: fn(&mut Ctx) -> R,
}

pub fn find(id: &str) -> Option<&'static Prop> {
    ALL.iter().flat_map(|a| a.iter()).find(|p| p.id == id)
}

pub fn ids() -> Vec<&'static str> {
    ALL.iter().flat_map(|a| a.iter()).map(|p| p.id).collect()
}

static ALL: &[&[Prop]] = &[text::PROPS, tables::PROPS, rc::PROPS, py::PROPS, threads::PROPS, repeat::PROPS, growth::PROPS, effects::PROPS, errors::PROPS, forms::PROPS, swap::PROPS, reading::PROPS];
