// Entry points of the analysis: every function only uses grib's public API, with opaque readers and section sources.
#![allow(clippy::all)]
use grib::*;
use std::io::{Read, Result as IoResult, Seek, SeekFrom};

/// an arbitrary byte stream
pub struct Src {
    pub id: u64,
}
pub fn ext_read(_: &mut Src, _: &mut [u8]) -> IoResult<usize> { loop {} }
pub fn ext_read_exact(_: &mut Src, _: &mut [u8]) -> IoResult<()> { loop {} }
pub fn ext_seek(_: &mut Src, _: SeekFrom) -> IoResult<u64> { loop {} }
impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> IoResult<usize> { ext_read(self, buf) }
    fn read_exact(&mut self, buf: &mut [u8]) -> IoResult<()> { ext_read_exact(self, buf) }
}
impl Seek for Src {
    fn seek(&mut self, p: SeekFrom) -> IoResult<u64> { ext_seek(self, p) }
}
pub type Rd = SeekableGrib2Reader<Src>;

/// an arbitrary sequence of sections and errors
pub struct Sects {
    pub id: u64,
}
pub fn ext_sect(_: &mut Sects) -> Option<Result<SectionInfo, ParseError>> { loop {} }
impl Iterator for Sects {
    type Item = Result<SectionInfo, ParseError>;
    fn next(&mut self) -> Option<Self::Item> { ext_sect(self) }
}

// ---- container
pub fn open(s: Src) -> Result<Grib2<Rd>, GribError> { from_reader(s) }
pub fn open_slice(b: &[u8]) -> Result<Grib2<SeekableGrib2Reader<std::io::Cursor<&[u8]>>>, GribError> { from_slice(b) }
pub fn sects_new(s: Src) -> Grib2SectionStream<Rd> { Grib2SectionStream::new(SeekableGrib2Reader::new(s)) }
pub fn sects_next(s: &mut Grib2SectionStream<Rd>) -> Option<Result<SectionInfo, ParseError>> { s.next() }
pub fn reader_new(s: Src) -> Rd { SeekableGrib2Reader::new(s) }
pub fn rd_sect0(r: &mut Rd) -> Result<Option<(usize, Indicator)>, ParseError> { r.read_sect0() }
pub fn rd_sect8(r: &mut Rd) -> Result<Option<()>, ParseError> { r.read_sect8() }
pub fn rd_header(r: &mut Rd) -> Result<Option<(usize, u8)>, ParseError> { r.read_sect_header() }
pub fn rd_payload(r: &mut Rd, h: (usize, u8)) -> Result<SectionBody, ParseError> { r.read_sect_payload(&h) }
pub fn rd_slice(r: &mut Rd, s: &SectionInfo) -> Result<Box<[u8]>, ParseError> { r.read_sect_payload_as_slice(s) }
pub fn parser_new(s: Sects) -> Grib2SubmessageStream<Sects> { Grib2SubmessageStream::new(s) }
pub fn parser_next(p: &mut Grib2SubmessageStream<Sects>) -> Option<Result<(usize, usize, Submessage), ParseError>> { p.next() }
pub fn g_len(g: &Grib2<Rd>) -> usize { g.len() }
pub fn g_is_empty(g: &Grib2<Rd>) -> bool { g.is_empty() }
pub fn g_iter<'a>(g: &'a Grib2<Rd>) -> SubmessageIterator<'a, Rd> { g.iter() }
pub fn g_submessages<'a>(g: &'a Grib2<Rd>) -> SubmessageIterator<'a, Rd> { g.submessages() }
pub fn g_into_iter<'a>(g: &'a Grib2<Rd>) -> SubmessageIterator<'a, Rd> { g.into_iter() }
pub fn it_next<'a>(i: &mut SubmessageIterator<'a, Rd>) -> Option<(MessageIndex, SubMessage<'a, Rd>)> { i.next() }
pub fn it_nth<'a>(i: &mut SubmessageIterator<'a, Rd>, n: usize) -> Option<(MessageIndex, SubMessage<'a, Rd>)> { i.nth(n) }
pub fn it_hint<'a>(i: &SubmessageIterator<'a, Rd>) -> (usize, Option<usize>) { i.size_hint() }
pub fn it_again<'a>(i: &'a SubmessageIterator<'a, Rd>) -> SubmessageIterator<'a, Rd> { i.into_iter() }
pub fn g_sections<'a>(g: &'a Grib2<Rd>) -> std::slice::Iter<'a, SectionInfo> { g.sections() }
pub fn g_templates(g: &Grib2<Rd>) -> Vec<TemplateInfo> { g.list_templates() }

// ---- sections
pub fn ident(b: Box<[u8]>) -> Result<Identification, BuildError> { Identification::from_payload(b) }
pub fn ident_fields(i: &Identification) -> (u16, u16, u8, u8, u8, u8, u8) {
    (i.centre_id(), i.subcentre_id(), i.master_table_version(), i.local_table_version(), i.ref_time_significance(), i.prod_status(), i.data_type())
}
pub fn ident_time(i: &Identification) -> Result<chrono::DateTime<chrono::Utc>, GribError> { i.ref_time() }
pub fn ident_iter(i: &Identification) -> std::slice::Iter<'_, u8> { i.iter() }
pub fn local_use(b: Box<[u8]>) -> LocalUse { LocalUse::from_payload(b) }
pub fn local_iter(i: &LocalUse) -> std::slice::Iter<'_, u8> { i.iter() }
pub fn grid(b: Box<[u8]>) -> Result<GridDefinition, BuildError> { GridDefinition::from_payload(b) }
pub fn grid_fields(g: &GridDefinition) -> (u32, u16) { (g.num_points(), g.grid_tmpl_num()) }
pub fn grid_iter(i: &GridDefinition) -> std::slice::Iter<'_, u8> { i.iter() }
pub fn grid_values(g: &GridDefinition) -> Result<GridDefinitionTemplateValues, GribError> { GridDefinitionTemplateValues::try_from(g) }
pub fn grid_shape(g: &GridDefinitionTemplateValues) -> (usize, usize) { g.grid_shape() }
pub fn grid_name(g: &GridDefinitionTemplateValues) -> &'static str { g.short_name() }
pub fn grid_ij(g: &GridDefinitionTemplateValues) -> Result<GridPointIndexIterator, GribError> { g.ij() }
pub fn grid_latlons(g: &GridDefinitionTemplateValues) -> Result<GridPointIterator, GribError> { g.latlons() }
pub fn ij_next(i: &mut GridPointIndexIterator) -> Option<(usize, usize)> { i.next() }
pub fn ij_hint(i: &GridPointIndexIterator) -> (usize, Option<usize>) { i.size_hint() }
pub fn ll_next(i: &mut GridPointIterator) -> Option<(f32, f32)> { i.next() }
pub fn ll_hint(i: &GridPointIterator) -> (usize, Option<usize>) { i.size_hint() }
pub fn gaussian(n: usize) -> Vec<Option<f64>> { utils::compute_gaussian_latitudes(n).collect() }
pub fn scan_flags(m: &ScanningMode) -> (bool, bool, bool, bool) {
    (m.scans_positively_for_i(), m.scans_positively_for_j(), m.is_consecutive_for_i(), m.scans_alternating_rows())
}
pub fn proj_flags(m: &ProjectionCentreFlag) -> (bool, bool) { (m.contains_north_pole_on_projection_plane(), m.is_bipolar()) }
pub fn ll_ij(g: &LatLonGridDefinition) -> Result<GridPointIndexIterator, GribError> { g.ij() }
pub fn earth_radii(e: &EarthShapeDefinition) -> Option<(f64, f64)> { e.radii() }
pub fn prod(b: Box<[u8]>) -> Result<ProdDefinition, BuildError> { ProdDefinition::from_payload(b) }
pub fn prod_fields(p: &ProdDefinition) -> (u16, u16) { (p.num_coordinates(), p.prod_tmpl_num()) }
pub fn prod_iter(i: &ProdDefinition) -> std::slice::Iter<'_, u8> { i.iter() }
pub fn prod_category(p: &ProdDefinition) -> Option<u8> { p.parameter_category() }
pub fn prod_number(p: &ProdDefinition) -> Option<u8> { p.parameter_number() }
pub fn prod_process(p: &ProdDefinition) -> Option<u8> { p.generating_process() }
pub fn prod_time(p: &ProdDefinition) -> Option<ForecastTime> { p.forecast_time() }
pub fn prod_surfaces(p: &ProdDefinition) -> Option<(FixedSurface, FixedSurface)> { p.fixed_surfaces() }
pub fn repr(b: Box<[u8]>) -> Result<ReprDefinition, BuildError> { ReprDefinition::from_payload(b) }
pub fn repr_fields(p: &ReprDefinition) -> (u32, u16) { (p.num_points(), p.repr_tmpl_num()) }
pub fn repr_iter(i: &ReprDefinition) -> std::slice::Iter<'_, u8> { i.iter() }
pub fn tmpl_code(s: &SectionInfo) -> Option<TemplateInfo> { s.get_tmpl_code() }
pub fn tmpl_describe(s: &TemplateInfo) -> Option<String> { s.describe() }
pub fn tmpl_display(s: &TemplateInfo) -> String { s.to_string() }

// ---- attributes
pub fn surface_new(t: u8, f: i8, v: i32) -> FixedSurface { FixedSurface::new(t, f, v) }
pub fn surface_value(s: &FixedSurface) -> f64 { s.value() }
pub fn surface_unit(s: &FixedSurface) -> Option<&str> { s.unit() }
pub fn surface_nan(s: &FixedSurface) -> (bool, bool) { (s.scale_factor_is_nan(), s.value_is_nan()) }
pub fn surface_describe(s: &FixedSurface) -> (String, String, String) { s.describe() }
pub fn time_from_numbers(u: u8, v: u32) -> ForecastTime { ForecastTime::from_numbers(u, v) }
pub fn time_describe(t: &ForecastTime) -> (String, String) { t.describe() }
pub fn time_display(t: &ForecastTime) -> String { t.to_string() }
pub fn unit_short(t: codetables::grib2::Table4_4) -> Option<&'static str> { t.short_expr() }
pub fn param_describe(p: &Parameter) -> Option<String> { p.description() }
pub fn param_identical(p: &Parameter, c: codetables::NCEP) -> bool { p.is_identical_to(c) }
pub fn ncep_try(p: &Parameter) -> Option<codetables::NCEP> { codetables::NCEP::try_from(p).ok() }

// ---- code tables
use codetables::Lookup;
pub fn look_4_1(d: u8, c: usize) -> codetables::LookupResult { codetables::CodeTable4_1::new(d).lookup(c) }
pub fn look_4_2(d: u8, p: u8, c: usize) -> codetables::LookupResult { codetables::CodeTable4_2::new(d, p).lookup(c) }
pub fn look_c00(c: usize) -> codetables::LookupResult { codetables::CommonCodeTable00.lookup(c) }
pub fn look_c11(c: usize) -> codetables::LookupResult { codetables::CommonCodeTable11.lookup(c) }
pub fn look_0_0(c: usize) -> codetables::LookupResult { codetables::CodeTable0_0.lookup(c) }
pub fn look_1_1(c: usize) -> codetables::LookupResult { codetables::CodeTable1_1.lookup(c) }
pub fn look_1_2(c: usize) -> codetables::LookupResult { codetables::CodeTable1_2.lookup(c) }
pub fn look_1_3(c: usize) -> codetables::LookupResult { codetables::CodeTable1_3.lookup(c) }
pub fn look_1_4(c: usize) -> codetables::LookupResult { codetables::CodeTable1_4.lookup(c) }
pub fn look_3_1(c: usize) -> codetables::LookupResult { codetables::CodeTable3_1.lookup(c) }
pub fn look_4_0(c: usize) -> codetables::LookupResult { codetables::CodeTable4_0.lookup(c) }
pub fn look_4_3(c: usize) -> codetables::LookupResult { codetables::CodeTable4_3.lookup(c) }
pub fn look_4_4(c: usize) -> codetables::LookupResult { codetables::CodeTable4_4.lookup(c) }
pub fn look_4_5(c: usize) -> codetables::LookupResult { codetables::CodeTable4_5.lookup(c) }
pub fn look_5_0(c: usize) -> codetables::LookupResult { codetables::CodeTable5_0.lookup(c) }
pub fn look_show(r: &codetables::LookupResult) -> (Option<String>, String) { (r.description(), r.to_string()) }

// ---- submessages
pub fn sm_parameter(s: &SubMessage<'_, Rd>) -> Option<Parameter> { s.parameter() }
pub fn sm_describe(s: &SubMessage<'_, Rd>) -> String { s.describe() }
pub fn sm_shape(s: &SubMessage<'_, Rd>) -> Result<(usize, usize), GribError> { s.grid_shape() }
pub fn sm_ij(s: &SubMessage<'_, Rd>) -> Result<GridPointIndexIterator, GribError> { s.ij() }
pub fn sm_latlons(s: &SubMessage<'_, Rd>) -> Result<GridPointIterator, GribError> { s.latlons() }
pub fn sm_defs<'a>(s: &'a SubMessage<'_, Rd>) -> (&'a Indicator, &'a GridDefinition, &'a ProdDefinition, &'a ReprDefinition) {
    (s.indicator(), s.grid_def(), s.prod_def(), s.repr_def())
}
pub fn decoder(s: SubMessage<'_, Rd>) -> Result<Grib2SubmessageDecoder, GribError> { Grib2SubmessageDecoder::from(s) }
pub fn dispatch<'a>(d: &'a Grib2SubmessageDecoder) -> Result<impl Iterator<Item = f32> + 'a, GribError> { d.dispatch() }
pub fn values_next(d: &Grib2SubmessageDecoder) -> Option<f32> {
    let mut v = d.dispatch().ok()?;
    let _ = v.size_hint();
    v.next()
}
pub fn values_two(d: &Grib2SubmessageDecoder) -> Result<(Option<f32>, Option<f32>), GribError> {
    let mut v = d.dispatch()?;
    let a = v.next();
    let b = v.next();
    Ok((a, b))
}
pub fn values_all(d: &Grib2SubmessageDecoder) -> Result<Vec<f32>, GribError> { Ok(d.dispatch()?.collect()) }
