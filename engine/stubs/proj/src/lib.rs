//! Type-level stand-in for the parts of `proj` 0.27 used by grib, for analysis only (never run).
use std::fmt;
pub struct Proj(());
#[derive(Debug)]
pub struct ProjCreateError(());
#[derive(Debug)]
pub struct ProjError(());
impl fmt::Display for ProjCreateError {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { loop {} }
}
impl fmt::Display for ProjError {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { loop {} }
}
impl std::error::Error for ProjCreateError {}
impl std::error::Error for ProjError {}
pub trait Coord: Copy {}
impl Coord for (f64, f64) {}
impl Proj {
    #[inline(never)]
    pub fn new(_: &str) -> Result<Proj, ProjCreateError> { loop {} }
    #[inline(never)]
    pub fn new_known_crs(_: &str, _: &str, _: Option<()>) -> Result<Proj, ProjCreateError> { loop {} }
    #[inline(never)]
    pub fn project<C: Coord>(&self, _: C, _inverse: bool) -> Result<C, ProjError> { loop {} }
    #[inline(never)]
    pub fn convert<C: Coord>(&self, _: C) -> Result<C, ProjError> { loop {} }
    #[inline(never)]
    pub fn project_array<'a, C: Coord>(&self, _: &'a mut [C], _inverse: bool) -> Result<&'a mut [C], ProjError> { loop {} }
    #[inline(never)]
    pub fn convert_array<'a, C: Coord>(&self, _: &'a mut [C]) -> Result<&'a mut [C], ProjError> { loop {} }
}
