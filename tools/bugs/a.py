C = 'use material_color_utilities_rs::'
seed('b01', 'P12', 'two set_* calls in a row on the same object, the first changing chroma of an out-of-gamut request', 'set_hue keeps the previous chroma instead of re-measuring it, so the object reports a chroma its colour does not have and the next mutation starts from it',
 [('src/hct/hct.rs', '''        self._argb = HctSolver::solve_to_int(new_hue, self.get_chroma(), self.get_tone());
        let cam16 = Cam16::from_int(self._argb);
        self._hue = cam16.hue;
        self._chroma = cam16.chroma;
''', '''        self._argb = HctSolver::solve_to_int(new_hue, self.get_chroma(), self.get_tone());
        let cam16 = Cam16::from_int(self._argb);
        self._hue = cam16.hue;
        self._chroma = self._chroma.max(cam16.chroma);
''')], C + '''hct::hct::Hct;
fn main() {
    let mut h = Hct::from(27.0, 110.0, 50.0);
    h.set_hue(200.0);
    let m = Hct::from_int(h.to_int());
    assert_eq!((h.get_hue(), h.get_chroma(), h.get_tone()), (m.get_hue(), m.get_chroma(), m.get_tone()));
}
''')
seed('b02', 'P30', 'a colour pair whose shorter arc crosses hue 0 from above', 'harmonize rotates downward across 0 and clamps instead of wrapping, so the hue jumps',
 [('src/blend/blend.rs', '''        let output_hue = MathUtils::sanitize_degrees_double(
            from_hct.get_hue()
                + rotation_degrees
                    * MathUtils::rotation_direction(from_hct.get_hue(), to_hct.get_hue()),
        );''', '''        let output_hue = MathUtils::clamp_double(
            0.0,
            359.999,
            from_hct.get_hue()
                + rotation_degrees
                    * MathUtils::rotation_direction(from_hct.get_hue(), to_hct.get_hue()),
        );''')], C + '''{blend::blend::Blend, hct::hct::Hct, utils::math_utils::MathUtils};
fn main() {
    let a = Hct::from(6.0, 40.0, 50.0);
    let b = Hct::from(330.0, 40.0, 50.0);
    let r = Hct::from_int(Blend::harmonize(a.to_int(), b.to_int()));
    let d = MathUtils::difference_degrees(r.get_hue(), a.get_hue());
    assert!(d > 10.0, "moved only {}", d);
}
''')
seed('b03', 'P15', 'a contrast level strictly between 0.5 and 1', 'the curve between medium and high is interpolated from the normal value',
 [('src/dynamiccolor/src/contrast_curve.rs', 'MathUtils::lerp(self.medium, self.high, (contrast_level - 0.5) / 0.5)', 'MathUtils::lerp(self.medium, self.high, contrast_level * contrast_level)')],
 C + '''dynamiccolor::src::contrast_curve::ContrastCurve;
fn main() {
    let c = ContrastCurve::new(1.0, 3.0, 4.5, 7.0);
    let v = c.get(0.75);
    assert!((v - 5.75).abs() < 1e-9, "{}", v);
}
''')
seed('b04', 'P19', 'a colour with two backgrounds below normal contrast or where the first background alone is satisfied', 'a colour that contrasts with the lighter of two backgrounds and the first one is accepted although the second, darker one is not satisfied',
 [('src/dynamiccolor/dynamic_color.rs', '''                    if Contrast::ratio_of_tones(upper, answer) >= desired_ratio
                        && Contrast::ratio_of_tones(lower, answer) >= desired_ratio
                    {''', '''                    if Contrast::ratio_of_tones(upper, answer) >= desired_ratio
                        && Contrast::ratio_of_tones(bg_tone1, answer) >= desired_ratio
                    {''')],
 C + '''{contrast::contrast::Contrast, dynamiccolor::{dynamic_color::DynamicColor, dynamic_scheme::DynamicScheme, src::contrast_curve::ContrastCurve, variant::Variant}, palettes::tonal_palette::TonalPalette};
fn plain(t: f64) -> DynamicColor { DynamicColor::new("b", Box::new(|s| &s.neutral_palette), Box::new(move |_| t), true, None, None, None, None) }
fn main() {
    let p = || TonalPalette::of(200.0, 20.0);
    let s = DynamicScheme::new(0xFF4285F4, Variant::TonalSpot, Some(0.0), false, p(), p(), p(), p(), p());
    let d = DynamicColor::new("x", Box::new(|s| &s.primary_palette), Box::new(|_| 30.0), false, Some(Box::new(|_| plain(96.0))), Some(Box::new(|_| plain(65.0))), Some(ContrastCurve::new(4.5, 4.5, 4.5, 4.5)), None);
    let t = d.get_tone(&s);
    assert!(Contrast::ratio_of_tones(t, 96.0) >= 4.45 && Contrast::ratio_of_tones(t, 65.0) >= 4.45, "{}", t);
}
''')
seed('b05', 'P08', 'text whose first character is not a plain # or digit, such as leading white space', 'parsing panics on text shorter than six digits',
 [('src/utils/string_utils.rs', 'return i64::from_str_radix(hex.trim_start_matches("#"), 16).ok();', 'let digits = hex.trim_start_matches("#");\n        return i64::from_str_radix(&digits[digits.len().saturating_sub(6)..], 16).ok();')],
 C + """utils::string_utils::StringUtils;
fn main() {
    let r = StringUtils::argb_from_hex("\\u{20ac}12345".to_string());
    assert_eq!(r, None);
}
""")
seed('b06', 'P24', 'an explicit scheme with a contrast level beyond -1..1', 'DynamicScheme::new silently limits the contrast level it was given',
 [('src/dynamiccolor/dynamic_scheme.rs', 'contrast_level: contrast_level.unwrap_or(0.0),', 'contrast_level: contrast_level.unwrap_or(0.0).max(-1.0).min(1.0),')],
 C + '''{dynamiccolor::{dynamic_scheme::DynamicScheme, variant::Variant}, palettes::tonal_palette::TonalPalette};
fn main() {
    let p = || TonalPalette::of(200.0, 20.0);
    let s = DynamicScheme::new(0xFF4285F4, Variant::TonalSpot, Some(1.25), false, p(), p(), p(), p(), p());
    assert_eq!(s.contrast_level, 1.25);
}
''')
seed('b07', 'P29', 'more analogous colours asked for than twice the divisions', 'clockwise analogues stop repeating once the wheel has been gone round',
 [('src/temperature/temperature_cache.rs', 'index = index % all_colors.len() as i64;\n            }\n            answers.push(', 'index = all_colors.len() as i64 - 1;\n            }\n            answers.push(')],
 C + '''{hct::hct::Hct, temperature::temperature_cache::TemperatureCache};
fn main() {
    let v: Vec<i64> = TemperatureCache::new(Hct::from_int(0xFF0000FF)).analogous(Some(14), Some(4)).iter().map(|h| h.to_int()).collect();
    // 6 before the input, 7 after it, with period 4
    assert_eq!(v.len(), 14);
    assert_eq!(v[7], v[11]);
    assert_eq!(v[8], v[12]);
    assert_eq!(v[9], v[13]);
}
''')
seed('b08', 'P21', 'two hue/chroma palettes whose hues differ by less than 0.4', 'palettes compare equal although their hues differ, and hash differently',
 [('src/palettes/tonal_palette.rs', '            return self.hue == other.hue && self.chroma == other.chroma;', '            return (self.hue - other.hue).abs() < 0.4 && self.chroma == other.chroma;')],
 C + '''palettes::tonal_palette::TonalPalette;
use std::{collections::hash_map::DefaultHasher, hash::{Hash, Hasher}};
fn h(p: &TonalPalette) -> u64 { let mut s = DefaultHasher::new(); p.hash(&mut s); s.finish() }
fn main() {
    for k in 0..300 {
        let (a, b) = (TonalPalette::of(k as f64, 60.0), TonalPalette::of(k as f64 + 0.39, 60.0));
        assert!(a != b || h(&a) == h(&b));
    }
}
''')
seed('b09', 'P22', 'a tone strictly between 99.5 and 100', 'the palette answers white for tones just below 100',
 [('src/palettes/tonal_palette.rs', 'None => Hct::from(self.hue, self.chroma, tone),', 'None => Hct::from(self.hue, self.chroma, if tone > 99.5 { 100.0 } else { tone }),')],
 C + '''{hct::hct::Hct, palettes::tonal_palette::TonalPalette};
fn main() {
    let p = TonalPalette::of(280.0, 60.0);
    assert_eq!(p.get_hct(99.6).to_int(), Hct::from(280.0, 60.0, 99.6).to_int());
}
''')
seed('b10', 'P18', 'a scheme with a contrast level below -0.9', 'the getter of one role gives another role at the lowest contrast levels',
 [('src/dynamiccolor/dynamic_scheme.rs', 'self.get_argb(&mut MaterialDynamicColors::on_primary_fixed_variant())', 'self.get_argb(&mut if self.contrast_level < -0.9 {\n            MaterialDynamicColors::on_primary_fixed()\n        } else {\n            MaterialDynamicColors::on_primary_fixed_variant()\n        })')],
 C + '''{dynamiccolor::{dynamic_scheme::DynamicScheme, material_dynamic_colors::MaterialDynamicColors, variant::Variant}, palettes::tonal_palette::TonalPalette};
fn main() {
    let p = || TonalPalette::of(200.0, 40.0);
    let s = DynamicScheme::new(0xFF4285F4, Variant::TonalSpot, Some(-1.0), false, p(), p(), p(), p(), p());
    assert_eq!(s.get_on_primary_fixed_variant(), MaterialDynamicColors::on_primary_fixed_variant().get_argb(&s));
}
''')
seed('b11', 'P33', 'an input colour whose hue lies between 359.9 and 360', 'asking for the complement of such a colour indexes past the wheel',
 [('src/temperature/temperature_cache.rs', '        let mut answer = self._hcts_by_hue[self.input.get_hue().round() as usize].clone();', '        let mut answer = self._hcts_by_hue[(self.input.get_hue() + 0.6).round() as usize].clone();')],
 C + '''{hct::hct::Hct, temperature::temperature_cache::TemperatureCache};
fn main() {
    let mut n = 0;
    'out: for r in (0..256).step_by(5) {
        for g in (0..256).step_by(5) {
            for b in (0..256).step_by(5) {
                let h = Hct::from_int(0xFF000000 | r << 16 | g << 8 | b);
                if h.get_hue() >= 359.9 && h.get_chroma() > 5.0 {
                    TemperatureCache::new(h).get_complement();
                    n += 1;
                    if n == 3 { break 'out; }
                }
            }
        }
    }
    assert!(n > 0);
}
''')
seed('b12', 'P11', 'an appearance of lightness below a half', 'very dark appearances are converted as if they were colourless',
 [('src/hct/cam16.rs', 'if self.chroma == 0.0 || self.j == 0.0 {', 'if self.chroma == 0.0 || self.j < 0.5 {')],
 C + '''hct::{cam16::Cam16, viewing_conditions::ViewingConditions};
fn main() {
    let vc = ViewingConditions::make(None, None, None, None, None);
    let a = Cam16::from_jch(0.45, 6.0, 30.0).xyz_in_viewing_conditions(&vc, None);
    let b = Cam16::from_jch(0.45, 0.0, 30.0).xyz_in_viewing_conditions(&vc, None);
    assert!((a[0] - b[0]).abs() + (a[1] - b[1]).abs() + (a[2] - b[2]).abs() > 1e-9);
}
''')
