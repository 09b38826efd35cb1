//! Probe functions over the public API of the crate under analysis.
//! Nothing here is ever executed: the functions only name the analysed entry points (so that the
//! compiler resolves and monomorphises them) and are roots of the MIR dump.
#![allow(clippy::all, dead_code, unused)]
use material_color_utilities_rs as m;
use m::blend::blend::Blend;
use m::contrast::contrast::Contrast;
use m::dislike::dislike_analyzer::DislikeAnalyzer;
use m::dynamiccolor::dynamic_color::DynamicColor;
use m::dynamiccolor::dynamic_scheme::DynamicScheme;
use m::dynamiccolor::material_dynamic_colors::MaterialDynamicColors;
use m::dynamiccolor::src::contrast_curve::ContrastCurve;
use m::dynamiccolor::src::tone_delta_pair::{ToneDeltaPair, TonePolarity};
use m::dynamiccolor::variant::Variant;
use m::hct::cam16::Cam16;
use m::hct::hct::Hct;
use m::hct::src::hct_solver::HctSolver;
use m::hct::viewing_conditions::ViewingConditions;
use m::palettes::core_palette::CorePalette;
use m::palettes::tonal_palette::TonalPalette;
use m::quantize::quantizer::{Quantizer, QuantizerResult};
use m::quantize::quantizer_celebi::QuantizerCelebi;
use m::quantize::quantizer_map::QuantizerMap;
use m::quantize::quantizer_wsmeans::{DistanceAndIndex, QuantizerWsmeans};
use m::quantize::quantizer_wu::{Box as WuBox, Direction, QuantizerWu, CreateBoxesResult, MaximizeResult};
use m::quantize::src::point_provider::PointProvider;
use m::quantize::src::point_provider_lab::PointProviderLab;
use m::scheme::scheme::Scheme;
use m::scheme::scheme_content::SchemeContent;
use m::scheme::scheme_expressive::SchemeExpressive;
use m::scheme::scheme_fidelity::SchemeFidelity;
use m::scheme::scheme_fruit_salad::SchemeFruitSalad;
use m::scheme::scheme_monochrome::SchemeMonochrome;
use m::scheme::scheme_neutral::SchemeNeutral;
use m::scheme::scheme_rainbow::SchemeRainbow;
use m::scheme::scheme_tonal_spot::SchemeTonalSpot;
use m::scheme::scheme_vibrant::SchemeVibrant;
use m::score::score::Score;
use m::temperature::temperature_cache::TemperatureCache;
use m::utils::color_utils::ColorUtils;
use m::utils::math_utils::MathUtils;
use m::utils::string_utils::StringUtils;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};

/// A hasher whose write methods are opaque to the analysis (recorded as a trace of writes).
pub struct TraceHasher { pub t: u64 }
impl Hasher for TraceHasher {
    fn finish(&self) -> u64 { self.t }
    fn write(&mut self, b: &[u8]) { self.t = self.t.wrapping_add(b.len() as u64) }
}

pub fn cu_argb_from_rgb(red: i64, green: i64, blue: i64) -> i64 { ColorUtils::argb_from_rgb(red,green,blue) }
pub fn cu_argb_from_linrgb(v: Vec<f64>) -> i64 { ColorUtils::argb_from_linrgb(v) }
pub fn cu_alpha_from_argb(a: i64) -> i64 { ColorUtils::alpha_from_argb(a) }
pub fn cu_red_from_argb(a: i64) -> i64 { ColorUtils::red_from_argb(a) }
pub fn cu_green_from_argb(a: i64) -> i64 { ColorUtils::green_from_argb(a) }
pub fn cu_blue_from_argb(a: i64) -> i64 { ColorUtils::blue_from_argb(a) }
pub fn cu_is_opaque(a: i64) -> bool { ColorUtils::is_opaque(a) }
pub fn cu_argb_from_xyz(x: f64, y: f64, z: f64) -> i64 { ColorUtils::argb_from_xyz(x,y,z) }
pub fn cu_xyz_from_argb(a: i64) -> Vec<f64> { ColorUtils::xyz_from_argb(a) }
pub fn cu_argb_from_lab(l: f64, a: f64, b: f64) -> i64 { ColorUtils::argb_from_lab(l,a,b) }
pub fn cu_lab_from_argb(a: i64) -> Vec<f64> { ColorUtils::lab_from_argb(a) }
pub fn cu_argb_from_lstar(l: f64) -> i64 { ColorUtils::argb_from_lstar(l) }
pub fn cu_lstar_from_argb(a: i64) -> f64 { ColorUtils::lstar_from_argb(a) }
pub fn cu_y_from_lstar(l: f64) -> f64 { ColorUtils::y_from_lstar(l) }
pub fn cu_lstar_from_y(y: f64) -> f64 { ColorUtils::lstar_from_y(y) }
pub fn cu_linearized(c: i64) -> f64 { ColorUtils::linearized(c) }
pub fn cu_delinearized(c: f64) -> i64 { ColorUtils::delinearized(c) }
pub fn cu_white_point_d65() -> Vec<f64> { ColorUtils::white_point_d65() }
pub fn mu_signum(n: f64) -> i64 { MathUtils::signum(n) }
pub fn mu_lerp(a: f64, b: f64, t: f64) -> f64 { MathUtils::lerp(a,b,t) }
pub fn mu_clamp_int(a: i64, b: i64, x: i64) -> i64 { MathUtils::clamp_int(a,b,x) }
pub fn mu_clamp_double(a: f64, b: f64, x: f64) -> f64 { MathUtils::clamp_double(a,b,x) }
pub fn mu_sanitize_degrees_int(d: i64) -> i64 { MathUtils::sanitize_degrees_int(d) }
pub fn mu_sanitize_degrees_double(d: f64) -> f64 { MathUtils::sanitize_degrees_double(d) }
pub fn mu_rotation_direction(a: f64, b: f64) -> f64 { MathUtils::rotation_direction(a,b) }
pub fn mu_difference_degrees(a: f64, b: f64) -> f64 { MathUtils::difference_degrees(a,b) }
pub fn mu_matrix_multiply(r: Vec<f64>, m: Vec<Vec<f64>>) -> Vec<f64> { MathUtils::matrix_multiply(r,m) }
pub fn su_hex_from_argb(a: i64, h: Option<bool>) -> String { StringUtils::hex_from_argb(a, h) }
pub fn su_argb_from_hex(h: String) -> Option<i64> { StringUtils::argb_from_hex(h) }
pub fn ct_ratio_of_tones(a: f64, b: f64) -> f64 { Contrast::ratio_of_tones(a, b) }
pub fn ct_lighter(a: f64, b: f64) -> f64 { Contrast::lighter(a, b) }
pub fn ct_darker(a: f64, b: f64) -> f64 { Contrast::darker(a, b) }
pub fn ct_lighter_unsafe(a: f64, b: f64) -> f64 { Contrast::lighter_unsafe(a, b) }
pub fn ct_darker_unsafe(a: f64, b: f64) -> f64 { Contrast::darker_unsafe(a, b) }
pub fn hs_solve_to_int(h: f64, c: f64, t: f64) -> i64 { HctSolver::solve_to_int(h, c, t) }
pub fn hs_solve_to_cam(h: f64, c: f64, t: f64) -> Cam16 { HctSolver::solve_to_cam(h, c, t) }
pub fn vc_s_rgb() -> ViewingConditions { ViewingConditions::s_rgb() }
pub fn vc_standard() -> ViewingConditions { ViewingConditions::standard() }
pub fn vc_make(white_point: Option<Vec<f64>>, adapting_luminance: Option<f64>, background_lstar: Option<f64>, surround: Option<f64>, discounting_illuminant: Option<bool>) -> ViewingConditions { ViewingConditions::make(white_point,adapting_luminance,background_lstar,surround,discounting_illuminant) }
pub fn hct_from(h: f64, c: f64, t: f64) -> Hct { Hct::from(h, c, t) }
pub fn hct_from_int(a: i64) -> Hct { Hct::from_int(a) }
pub fn hct_new(a: i64) -> Hct { Hct::new(a) }
pub fn hct_to_int(h: &Hct) -> i64 { h.to_int() }
pub fn hct_get_hue(h: &Hct) -> f64 { h.get_hue() }
pub fn hct_set_hue(h: &mut Hct, v: f64) -> () { h.set_hue(v) }
pub fn hct_get_chroma(h: &Hct) -> f64 { h.get_chroma() }
pub fn hct_set_chroma(h: &mut Hct, v: f64) -> () { h.set_chroma(v) }
pub fn hct_get_tone(h: &Hct) -> f64 { h.get_tone() }
pub fn hct_set_tone(h: &mut Hct, v: f64) -> () { h.set_tone(v) }
pub fn hct_in_vc(h: &Hct, vc: &ViewingConditions) -> Hct { h.in_viewing_conditions(vc) }
pub fn hct_to_string(h: &Hct) -> String { h.to_string() }
pub fn hct_eq(a: &Hct, b: &Hct) -> bool { a == b }
pub fn hct_hash(a: &Hct, s: &mut TraceHasher) -> () { a.hash(s) }
pub fn cam_distance(a: &Cam16, b: &Cam16) -> f64 { a.distance(b) }
pub fn cam_from_int(a: i64) -> Cam16 { Cam16::from_int(a) }
pub fn cam_from_int_vc(a: i64, vc: &ViewingConditions) -> Cam16 { Cam16::from_int_in_viewing_conditions(a, vc) }
pub fn cam_from_xyz_vc(x: f64, y: f64, z: f64, vc: &ViewingConditions) -> Cam16 { Cam16::from_xyz_in_viewing_conditions(x, y, z, vc) }
pub fn cam_from_jch(j: f64, c: f64, h: f64) -> Cam16 { Cam16::from_jch(j, c, h) }
pub fn cam_from_jch_vc(j: f64, c: f64, h: f64, vc: &ViewingConditions) -> Cam16 { Cam16::from_jch_in_viewing_conditions(j, c, h, vc) }
pub fn cam_from_ucs(j: f64, a: f64, b: f64) -> Cam16 { Cam16::from_ucs(j, a, b) }
pub fn cam_from_ucs_vc(j: f64, a: f64, b: f64, vc: &ViewingConditions) -> Cam16 { Cam16::from_ucs_in_viewing_conditions(j, a, b, vc) }
pub fn cam_to_int(c: &Cam16) -> i64 { c.to_int() }
pub fn cam_viewed(c: &Cam16, vc: &ViewingConditions) -> i64 { c.viewed(vc) }
// xyz_in_viewing_conditions, debug below
pub fn role_primary_palette_key_color() -> DynamicColor { MaterialDynamicColors::primary_palette_key_color() }
pub fn role_secondary_palette_key_color() -> DynamicColor { MaterialDynamicColors::secondary_palette_key_color() }
pub fn role_tertiary_palette_key_color() -> DynamicColor { MaterialDynamicColors::tertiary_palette_key_color() }
pub fn role_neutral_palette_key_color() -> DynamicColor { MaterialDynamicColors::neutral_palette_key_color() }
pub fn role_neutral_variant_palette_key_color() -> DynamicColor { MaterialDynamicColors::neutral_variant_palette_key_color() }
pub fn role_background() -> DynamicColor { MaterialDynamicColors::background() }
pub fn role_on_background() -> DynamicColor { MaterialDynamicColors::on_background() }
pub fn role_surface() -> DynamicColor { MaterialDynamicColors::surface() }
pub fn role_surface_dim() -> DynamicColor { MaterialDynamicColors::surface_dim() }
pub fn role_surface_bright() -> DynamicColor { MaterialDynamicColors::surface_bright() }
pub fn role_surface_container_lowest() -> DynamicColor { MaterialDynamicColors::surface_container_lowest() }
pub fn role_surface_container_low() -> DynamicColor { MaterialDynamicColors::surface_container_low() }
pub fn role_surface_container() -> DynamicColor { MaterialDynamicColors::surface_container() }
pub fn role_surface_container_high() -> DynamicColor { MaterialDynamicColors::surface_container_high() }
pub fn role_surface_container_highest() -> DynamicColor { MaterialDynamicColors::surface_container_highest() }
pub fn role_on_surface() -> DynamicColor { MaterialDynamicColors::on_surface() }
pub fn role_surface_variant() -> DynamicColor { MaterialDynamicColors::surface_variant() }
pub fn role_on_surface_variant() -> DynamicColor { MaterialDynamicColors::on_surface_variant() }
pub fn role_inverse_surface() -> DynamicColor { MaterialDynamicColors::inverse_surface() }
pub fn role_inverse_on_surface() -> DynamicColor { MaterialDynamicColors::inverse_on_surface() }
pub fn role_outline() -> DynamicColor { MaterialDynamicColors::outline() }
pub fn role_outline_variant() -> DynamicColor { MaterialDynamicColors::outline_variant() }
pub fn role_shadow() -> DynamicColor { MaterialDynamicColors::shadow() }
pub fn role_scrim() -> DynamicColor { MaterialDynamicColors::scrim() }
pub fn role_surface_tint() -> DynamicColor { MaterialDynamicColors::surface_tint() }
pub fn role_primary() -> DynamicColor { MaterialDynamicColors::primary() }
pub fn role_on_primary() -> DynamicColor { MaterialDynamicColors::on_primary() }
pub fn role_primary_container() -> DynamicColor { MaterialDynamicColors::primary_container() }
pub fn role_on_primary_container() -> DynamicColor { MaterialDynamicColors::on_primary_container() }
pub fn role_inverse_primary() -> DynamicColor { MaterialDynamicColors::inverse_primary() }
pub fn role_secondary() -> DynamicColor { MaterialDynamicColors::secondary() }
pub fn role_on_secondary() -> DynamicColor { MaterialDynamicColors::on_secondary() }
pub fn role_secondary_container() -> DynamicColor { MaterialDynamicColors::secondary_container() }
pub fn role_on_secondary_container() -> DynamicColor { MaterialDynamicColors::on_secondary_container() }
pub fn role_tertiary() -> DynamicColor { MaterialDynamicColors::tertiary() }
pub fn role_on_tertiary() -> DynamicColor { MaterialDynamicColors::on_tertiary() }
pub fn role_tertiary_container() -> DynamicColor { MaterialDynamicColors::tertiary_container() }
pub fn role_on_tertiary_container() -> DynamicColor { MaterialDynamicColors::on_tertiary_container() }
pub fn role_error() -> DynamicColor { MaterialDynamicColors::error() }
pub fn role_on_error() -> DynamicColor { MaterialDynamicColors::on_error() }
pub fn role_error_container() -> DynamicColor { MaterialDynamicColors::error_container() }
pub fn role_on_error_container() -> DynamicColor { MaterialDynamicColors::on_error_container() }
pub fn role_primary_fixed() -> DynamicColor { MaterialDynamicColors::primary_fixed() }
pub fn role_primary_fixed_dim() -> DynamicColor { MaterialDynamicColors::primary_fixed_dim() }
pub fn role_on_primary_fixed() -> DynamicColor { MaterialDynamicColors::on_primary_fixed() }
pub fn role_on_primary_fixed_variant() -> DynamicColor { MaterialDynamicColors::on_primary_fixed_variant() }
pub fn role_secondary_fixed() -> DynamicColor { MaterialDynamicColors::secondary_fixed() }
pub fn role_secondary_fixed_dim() -> DynamicColor { MaterialDynamicColors::secondary_fixed_dim() }
pub fn role_on_secondary_fixed() -> DynamicColor { MaterialDynamicColors::on_secondary_fixed() }
pub fn role_on_secondary_fixed_variant() -> DynamicColor { MaterialDynamicColors::on_secondary_fixed_variant() }
pub fn role_tertiary_fixed() -> DynamicColor { MaterialDynamicColors::tertiary_fixed() }
pub fn role_tertiary_fixed_dim() -> DynamicColor { MaterialDynamicColors::tertiary_fixed_dim() }
pub fn role_on_tertiary_fixed() -> DynamicColor { MaterialDynamicColors::on_tertiary_fixed() }
pub fn role_on_tertiary_fixed_variant() -> DynamicColor { MaterialDynamicColors::on_tertiary_fixed_variant() }
pub fn mdc_highest_surface(s: &DynamicScheme) -> DynamicColor { MaterialDynamicColors::highest_surface(s) }
pub fn sget_primary_palette_key_color(s: &DynamicScheme) -> i64 { s.get_primary_palette_key_color() }
pub fn sget_secondary_palette_key_color(s: &DynamicScheme) -> i64 { s.get_secondary_palette_key_color() }
pub fn sget_tertiary_palette_key_color(s: &DynamicScheme) -> i64 { s.get_tertiary_palette_key_color() }
pub fn sget_neutral_palette_key_color(s: &DynamicScheme) -> i64 { s.get_neutral_palette_key_color() }
pub fn sget_neutral_variant_palette_key_color(s: &DynamicScheme) -> i64 { s.get_neutral_variant_palette_key_color() }
pub fn sget_background(s: &DynamicScheme) -> i64 { s.get_background() }
pub fn sget_on_background(s: &DynamicScheme) -> i64 { s.get_on_background() }
pub fn sget_surface(s: &DynamicScheme) -> i64 { s.get_surface() }
pub fn sget_surface_dim(s: &DynamicScheme) -> i64 { s.get_surface_dim() }
pub fn sget_surface_bright(s: &DynamicScheme) -> i64 { s.get_surface_bright() }
pub fn sget_surface_container_lowest(s: &DynamicScheme) -> i64 { s.get_surface_container_lowest() }
pub fn sget_surface_container_low(s: &DynamicScheme) -> i64 { s.get_surface_container_low() }
pub fn sget_surface_container(s: &DynamicScheme) -> i64 { s.get_surface_container() }
pub fn sget_surface_container_high(s: &DynamicScheme) -> i64 { s.get_surface_container_high() }
pub fn sget_surface_container_highest(s: &DynamicScheme) -> i64 { s.get_surface_container_highest() }
pub fn sget_on_surface(s: &DynamicScheme) -> i64 { s.get_on_surface() }
pub fn sget_surface_variant(s: &DynamicScheme) -> i64 { s.get_surface_variant() }
pub fn sget_on_surface_variant(s: &DynamicScheme) -> i64 { s.get_on_surface_variant() }
pub fn sget_inverse_surface(s: &DynamicScheme) -> i64 { s.get_inverse_surface() }
pub fn sget_inverse_on_surface(s: &DynamicScheme) -> i64 { s.get_inverse_on_surface() }
pub fn sget_outline(s: &DynamicScheme) -> i64 { s.get_outline() }
pub fn sget_outline_variant(s: &DynamicScheme) -> i64 { s.get_outline_variant() }
pub fn sget_shadow(s: &DynamicScheme) -> i64 { s.get_shadow() }
pub fn sget_scrim(s: &DynamicScheme) -> i64 { s.get_scrim() }
pub fn sget_surface_tint(s: &DynamicScheme) -> i64 { s.get_surface_tint() }
pub fn sget_primary(s: &DynamicScheme) -> i64 { s.get_primary() }
pub fn sget_on_primary(s: &DynamicScheme) -> i64 { s.get_on_primary() }
pub fn sget_primary_container(s: &DynamicScheme) -> i64 { s.get_primary_container() }
pub fn sget_on_primary_container(s: &DynamicScheme) -> i64 { s.get_on_primary_container() }
pub fn sget_inverse_primary(s: &DynamicScheme) -> i64 { s.get_inverse_primary() }
pub fn sget_secondary(s: &DynamicScheme) -> i64 { s.get_secondary() }
pub fn sget_on_secondary(s: &DynamicScheme) -> i64 { s.get_on_secondary() }
pub fn sget_secondary_container(s: &DynamicScheme) -> i64 { s.get_secondary_container() }
pub fn sget_on_secondary_container(s: &DynamicScheme) -> i64 { s.get_on_secondary_container() }
pub fn sget_tertiary(s: &DynamicScheme) -> i64 { s.get_tertiary() }
pub fn sget_on_tertiary(s: &DynamicScheme) -> i64 { s.get_on_tertiary() }
pub fn sget_tertiary_container(s: &DynamicScheme) -> i64 { s.get_tertiary_container() }
pub fn sget_on_tertiary_container(s: &DynamicScheme) -> i64 { s.get_on_tertiary_container() }
pub fn sget_error(s: &DynamicScheme) -> i64 { s.get_error() }
pub fn sget_on_error(s: &DynamicScheme) -> i64 { s.get_on_error() }
pub fn sget_error_container(s: &DynamicScheme) -> i64 { s.get_error_container() }
pub fn sget_on_error_container(s: &DynamicScheme) -> i64 { s.get_on_error_container() }
pub fn sget_primary_fixed(s: &DynamicScheme) -> i64 { s.get_primary_fixed() }
pub fn sget_primary_fixed_dim(s: &DynamicScheme) -> i64 { s.get_primary_fixed_dim() }
pub fn sget_on_primary_fixed(s: &DynamicScheme) -> i64 { s.get_on_primary_fixed() }
pub fn sget_on_primary_fixed_variant(s: &DynamicScheme) -> i64 { s.get_on_primary_fixed_variant() }
pub fn sget_secondary_fixed(s: &DynamicScheme) -> i64 { s.get_secondary_fixed() }
pub fn sget_secondary_fixed_dim(s: &DynamicScheme) -> i64 { s.get_secondary_fixed_dim() }
pub fn sget_on_secondary_fixed(s: &DynamicScheme) -> i64 { s.get_on_secondary_fixed() }
pub fn sget_on_secondary_fixed_variant(s: &DynamicScheme) -> i64 { s.get_on_secondary_fixed_variant() }
pub fn sget_tertiary_fixed(s: &DynamicScheme) -> i64 { s.get_tertiary_fixed() }
pub fn sget_tertiary_fixed_dim(s: &DynamicScheme) -> i64 { s.get_tertiary_fixed_dim() }
pub fn sget_on_tertiary_fixed(s: &DynamicScheme) -> i64 { s.get_on_tertiary_fixed() }
pub fn sget_on_tertiary_fixed_variant(s: &DynamicScheme) -> i64 { s.get_on_tertiary_fixed_variant() }
pub fn ds_get_hct(s: &DynamicScheme, d: &mut DynamicColor) -> Hct { s.get_hct(d) }
pub fn ds_get_argb(s: &DynamicScheme, d: &mut DynamicColor) -> i64 { s.get_argb(d) }
pub fn ds_rotated_hue(h: &Hct, hues: &Vec<f64>, rots: &Vec<f64>) -> f64 { DynamicScheme::get_rotated_hue(h, hues, rots) }
pub fn ds_eq(a: &DynamicScheme, b: &DynamicScheme) -> bool { a == b }
pub fn ds_hash(a: &DynamicScheme, s: &mut TraceHasher) -> () { a.hash(s) }
pub fn var_eq(a: &Variant, b: &Variant) -> bool { a == b }
pub fn var_hash(a: &Variant, s: &mut TraceHasher) -> () { a.hash(s) }
pub fn dc_get_argb(d: &mut DynamicColor, s: &DynamicScheme) -> i64 { d.get_argb(s) }
pub fn dc_get_hct(d: &mut DynamicColor, s: &DynamicScheme) -> Hct { d.get_hct(s) }
pub fn dc_get_tone(d: &DynamicColor, s: &DynamicScheme) -> f64 { d.get_tone(s) }
pub fn dc_foreground_tone(b: f64, r: f64) -> f64 { DynamicColor::foreground_tone(b, r) }
pub fn dc_enable_light_foreground(t: f64) -> f64 { DynamicColor::enable_light_foreground(t) }
pub fn dc_prefers_light(t: f64) -> bool { DynamicColor::tone_prefers_light_foreground(t) }
pub fn dc_allows_light(t: f64) -> bool { DynamicColor::tone_allows_light_foreground(t) }
pub fn cc_new(a: f64, b: f64, c: f64, d: f64) -> ContrastCurve { ContrastCurve::new(a, b, c, d) }
pub fn cc_get(c: &ContrastCurve, l: f64) -> f64 { c.get(l) }
pub fn tp_of(h: f64, c: f64) -> TonalPalette { TonalPalette::of(h, c) }
pub fn tp_from_hct(h: &Hct) -> TonalPalette { TonalPalette::from_hct(h) }
pub fn tp_from_list(v: &Vec<i64>) -> TonalPalette { TonalPalette::from_list(v) }
pub fn tp_create_key_color(h: f64, c: f64) -> Hct { TonalPalette::create_key_color(h, c) }
pub fn tp_get_as_list(p: &mut TonalPalette) -> Vec<i64> { p.get_as_list() }
pub fn tp_get(p: &mut TonalPalette, t: i64) -> i64 { p.get(t) }
pub fn tp_get_hct(p: &TonalPalette, t: f64) -> Hct { p.get_hct(t) }
pub fn tp_eq(a: &TonalPalette, b: &TonalPalette) -> bool { a == b }
pub fn tp_hash(a: &TonalPalette, s: &mut TraceHasher) -> () { a.hash(s) }
pub fn tp_to_string(a: &TonalPalette) -> String { a.to_string() }
pub fn cp_of(a: i64) -> CorePalette { CorePalette::of(a) }
pub fn cp_content_of(a: i64) -> CorePalette { CorePalette::content_of(a) }
pub fn cp_from_list(a: &Vec<i64>) -> CorePalette { CorePalette::from_list(a) }
pub fn cp_as_list(a: &mut CorePalette) -> Vec<i64> { a.as_list() }
pub fn cp_eq(a: &CorePalette, b: &CorePalette) -> bool { a == b }
pub fn cp_hash(a: &CorePalette, s: &mut TraceHasher) -> () { a.hash(s) }
pub fn cp_to_string(a: &CorePalette) -> String { a.to_string() }
pub fn scheme_content(h: Hct, d: bool, c: f64) -> SchemeContent { SchemeContent::new(h, d, c) }
pub fn scheme_expressive(h: Hct, d: bool, c: f64) -> SchemeExpressive { SchemeExpressive::new(h, d, c) }
pub fn scheme_fidelity(h: Hct, d: bool, c: f64) -> SchemeFidelity { SchemeFidelity::new(h, d, c) }
pub fn scheme_fruit_salad(h: Hct, d: bool, c: f64) -> SchemeFruitSalad { SchemeFruitSalad::new(h, d, c) }
pub fn scheme_monochrome(h: Hct, d: bool, c: f64) -> SchemeMonochrome { SchemeMonochrome::new(h, d, c) }
pub fn scheme_neutral(h: Hct, d: bool, c: f64) -> SchemeNeutral { SchemeNeutral::new(h, d, c) }
pub fn scheme_rainbow(h: Hct, d: bool, c: f64) -> SchemeRainbow { SchemeRainbow::new(h, d, c) }
pub fn scheme_tonal_spot(h: Hct, d: bool, c: f64) -> SchemeTonalSpot { SchemeTonalSpot::new(h, d, c) }
pub fn scheme_vibrant(h: Hct, d: bool, c: f64) -> SchemeVibrant { SchemeVibrant::new(h, d, c) }
pub fn sch_light(c: i64) -> Scheme { Scheme::light(c) }
pub fn sch_dark(c: i64) -> Scheme { Scheme::dark(c) }
pub fn sch_light_content(c: i64) -> Scheme { Scheme::light_content(c) }
pub fn sch_dark_content(c: i64) -> Scheme { Scheme::dark_content(c) }
pub fn sch_light_from_core_palette(c: CorePalette) -> Scheme { Scheme::light_from_core_palette(c) }
pub fn sch_dark_from_core_palette(c: CorePalette) -> Scheme { Scheme::dark_from_core_palette(c) }
pub fn bl_harmonize(a: i64, b: i64) -> i64 { Blend::harmonize(a, b) }
pub fn bl_hct_hue(a: i64, b: i64, t: f64) -> i64 { Blend::hct_hue(a, b, t) }
pub fn bl_cam16_ucs(a: i64, b: i64, t: f64) -> i64 { Blend::cam16_ucs(a, b, t) }
pub fn dl_is_disliked(h: &Hct) -> bool { DislikeAnalyzer::is_disliked(h) }
pub fn dl_fix(h: &Hct) -> Hct { DislikeAnalyzer::fix_if_disliked(h) }
pub fn tc_new(h: Hct) -> TemperatureCache { TemperatureCache::new(h) }
pub fn tc_warmest(t: &mut TemperatureCache) -> Hct { t.get_warmest() }
pub fn tc_coldest(t: &mut TemperatureCache) -> Hct { t.get_coldest() }
pub fn tc_analogous(t: &mut TemperatureCache, c: Option<i64>, d: Option<i64>) -> Vec<Hct> { t.analogous(c, d) }
pub fn tc_complement(t: &mut TemperatureCache) -> Hct { t.get_complement() }
pub fn tc_relative_temperature(t: &mut TemperatureCache, h: &Hct) -> f64 { t.relative_temperature(h) }
pub fn tc_input_relative_temperature(t: &mut TemperatureCache) -> f64 { t.get_input_relative_temperature() }
pub fn tc_hcts_by_temp(t: &mut TemperatureCache) -> Vec<Hct> { t.get_hcts_by_temp() }
pub fn tc_temps_by_hct(t: &mut TemperatureCache) -> HashMap<Hct, f64> { t.get_temps_by_hct() }
pub fn tc_hcts_by_hue(t: &mut TemperatureCache) -> Vec<Hct> { t.get_hcts_by_hue() }
pub fn tc_is_between(x: f64, a: f64, b: f64) -> bool { TemperatureCache::is_between(x, a, b) }
pub fn tc_raw_temperature(h: &Hct) -> f64 { TemperatureCache::raw_temperature(h) }
pub fn sc_score(c: &HashMap<i64, i64>, d: Option<i64>, f: Option<i64>, flt: Option<bool>) -> Vec<i64> { Score::score(c, d, f, flt) }
pub fn qz_map(p: &Vec<i64>, n: i64) -> QuantizerResult { QuantizerMap {}.quantize(p, n, None) }
pub fn qz_wu(q: &mut QuantizerWu, p: &Vec<i64>, n: i64) -> QuantizerResult { q.quantize(p, n, None) }
pub fn qz_celebi(p: &Vec<i64>, n: i64, r: Option<bool>) -> QuantizerResult { QuantizerCelebi {}.quantize(p, n, r) }
pub fn lab_to_int(a: f64, b: f64, c: f64) -> i64 { PointProviderLab::new().to_int(&vec![a, b, c]) }
pub fn lab_from_int(a: i64) -> Vec<f64> { PointProviderLab::new().from_int(a) }
pub fn lab_distance(a: &Vec<f64>, b: &Vec<f64>) -> f64 { PointProviderLab::new().distance(a, b) }
pub fn di_cmp(a: &DistanceAndIndex, b: &DistanceAndIndex) -> std::cmp::Ordering { a.cmp(b) }
pub fn di_partial_cmp(a: &DistanceAndIndex, b: &DistanceAndIndex) -> Option<std::cmp::Ordering> { a.partial_cmp(b) }
pub fn di_eq(a: &DistanceAndIndex, b: &DistanceAndIndex) -> bool { a == b }
pub fn cam_xyz_vc(c: &Cam16, vc: &ViewingConditions) -> Vec<f64> { c.xyz_in_viewing_conditions(vc, None) }
pub fn qz_wsmeans(p: &Vec<i64>, n: i64, s: Option<&Vec<i64>>, pp: Option<&PointProviderLab>, it: Option<i64>, r: Option<bool>) -> QuantizerResult { QuantizerWsmeans::quantize(p, n, s, pp, it, r) }
pub fn ds_new(argb: i64, v: Variant, c: Option<f64>, d: bool, a: TonalPalette, b: TonalPalette, t: TonalPalette, n: TonalPalette, nv: TonalPalette) -> DynamicScheme { DynamicScheme::new(argb, v, c, d, a, b, t, n, nv) }
pub fn wu_new() -> QuantizerWu { QuantizerWu::new() }
pub fn wu_histogram(q: &mut QuantizerWu, p: HashMap<i64, i64>) -> () { q.construct_histogram(p) }
pub fn wu_moments(q: &mut QuantizerWu) -> () { q.compute_moments() }
pub fn wu_create_boxes(q: &mut QuantizerWu, n: i64) -> CreateBoxesResult { q.create_boxes(n) }
pub fn wu_create_result(q: &QuantizerWu, n: i64) -> Vec<i64> { q.create_result(n) }
pub fn wu_variance(q: &QuantizerWu, c: WuBox) -> f64 { q.variance(c) }
pub fn wu_cut(q: &mut QuantizerWu, a: usize, b: usize) -> bool { q.cut(a, b) }
pub fn wu_maximize(q: &QuantizerWu, c: WuBox, d: Direction, f: i64, l: i64, r: i64, g: i64, b: i64, w: i64) -> MaximizeResult { q.maximize(c, d, f, l, r, g, b, w) }
pub fn wu_box_string(b: &WuBox) -> String { b.to_string() }
pub fn qz_map_len(p: &Vec<i64>, n: i64) -> usize { QuantizerMap {}.quantize(p, n, None).color_to_count.len() }
pub fn qz_map_count(p: &Vec<i64>, n: i64, k: i64) -> i64 { QuantizerMap {}.quantize(p, n, None).color_to_count.get(&k).copied().unwrap_or(-1) }
pub fn wu_get_index(r: i64, g: i64, b: i64) -> i64 { QuantizerWu::get_index(r, g, b) }
pub fn wu_volume(c: WuBox, m: Vec<i64>) -> i64 { QuantizerWu::volume(c, m) }
pub fn wu_bottom(c: WuBox, d: Direction, m: Vec<i64>) -> i64 { QuantizerWu::bottom(c, d, m) }
pub fn wu_top(c: WuBox, d: Direction, p: i64, m: Vec<i64>) -> i64 { QuantizerWu::top(c, d, p, m) }
pub fn dcp_plain(t: f64, is_bg: bool) -> DynamicColor { DynamicColor::new("x", Box::new(|s| &s.primary_palette), Box::new(move |_| t), is_bg, None, None, None, None) }
pub fn dcp_on(t: f64, is_bg: bool, b: f64, k: f64, l: f64, m: f64, n: f64) -> DynamicColor { DynamicColor::new("x", Box::new(|s| &s.primary_palette), Box::new(move |_| t), is_bg, Some(Box::new(move |_| dcp_plain(b, true))), None, Some(ContrastCurve::new(k, l, m, n)), None) }
pub fn dcp_on2(t: f64, b: f64, b2: f64, k: f64, l: f64, m: f64, n: f64) -> DynamicColor { DynamicColor::new("x", Box::new(|s| &s.primary_palette), Box::new(move |_| t), false, Some(Box::new(move |_| dcp_plain(b, true))), Some(Box::new(move |_| dcp_plain(b2, true))), Some(ContrastCurve::new(k, l, m, n)), None) }
pub fn dcp_member(name: &str, t: f64, c: f64) -> DynamicColor { DynamicColor::new(name, Box::new(|s| &s.primary_palette), Box::new(move |_| t), true, None, None, Some(ContrastCurve::new(c, c, c, c)), None) }
pub fn dcp_pair(me: &str, pol: i64, ta: f64, ca: f64, tb: f64, cb: f64, bg: f64, delta: f64, together: bool) -> DynamicColor { DynamicColor::new(me, Box::new(|s| &s.primary_palette), Box::new(move |_| 0.0), true, Some(Box::new(move |_| dcp_plain(bg, true))), None, Some(ContrastCurve::new(1.0, 1.0, 1.0, 1.0)), Some(Box::new(move |_| ToneDeltaPair::new(dcp_member("a", ta, ca), dcp_member("b", tb, cb), delta, match pol { 0 => TonePolarity::Darker, 1 => TonePolarity::Lighter, 2 => TonePolarity::Nearer, _ => TonePolarity::Farther }, together)))) }
pub fn dcp_pair_a(pol: i64, ta: f64, ca: f64, tb: f64, cb: f64, bg: f64, delta: f64, together: bool) -> DynamicColor { dcp_pair("a", pol, ta, ca, tb, cb, bg, delta, together) }
pub fn dcp_pair_b(pol: i64, ta: f64, ca: f64, tb: f64, cb: f64, bg: f64, delta: f64, together: bool) -> DynamicColor { dcp_pair("b", pol, ta, ca, tb, cb, bg, delta, together) }
pub fn dcf_name(d: &DynamicColor) -> String { d.name.clone() }
pub fn dcf_palette<'a>(d: &DynamicColor, s: &'a DynamicScheme) -> &'a TonalPalette { (d.palette)(s) }
pub fn dcf_tone(d: &DynamicColor, s: &DynamicScheme) -> f64 { (d.tone)(s) }
pub fn dcf_is_background(d: &DynamicColor) -> bool { d.is_background }
pub fn dcf_back(d: &DynamicColor, s: &DynamicScheme) -> Option<DynamicColor> { match &d.background { Some(f) => Some(f(s)), None => None } }
pub fn dcf_back2(d: &DynamicColor, s: &DynamicScheme) -> Option<DynamicColor> { match &d.second_background { Some(f) => Some(f(s)), None => None } }
pub fn dcf_curve(d: &DynamicColor, l: f64) -> Option<f64> { match &d.contrast_curve { Some(c) => Some(c.get(l)), None => None } }
pub fn dcf_pair(d: &DynamicColor, s: &DynamicScheme) -> Option<ToneDeltaPair> { match &d.tone_delta_pair { Some(f) => Some(f(s)), None => None } }
