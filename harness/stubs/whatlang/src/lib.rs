//! STUB of whatlang (not available offline). `detect` always answers None; nothing in /verif
//! relies on language identification.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Lang { Eng, Deu }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Script { Latin, Cyrillic }
#[derive(Debug, Clone, Copy)]
pub struct Info;
impl Info {
  pub fn script(&self) -> Script { Script::Latin }
  pub fn lang(&self) -> Lang { Lang::Eng }
  pub fn confidence(&self) -> f64 { 1.0 }
}
pub fn detect(_s: &str) -> Option<Info> { None }
