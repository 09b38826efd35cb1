CAM='src/hct/cam16.rs'; VC='src/hct/viewing_conditions.rs'; H='src/hct/hct.rs'; DS='src/dynamiccolor/dynamic_scheme.rs'; DC='src/dynamiccolor/dynamic_color.rs'
MD='src/dynamiccolor/material_dynamic_colors.rs'; TP='src/palettes/tonal_palette.rs'; CP='src/palettes/core_palette.rs'; SC='src/scheme/scheme.rs'; TC='src/temperature/temperature_cache.rs'
SO='src/score/score.rs'; CT='src/contrast/contrast.rs'; SV='src/scheme/scheme_vibrant.rs'; SCO='src/scheme/scheme_content.rs'; SF='src/scheme/scheme_fidelity.rs'
bug('b01', 'P11', [(CAM, '        if h < 0.0 {\n            h += 360.0;\n        }', '        if h < -0.01 {\n            h += 360.0;\n        }')])
bug('b02', 'P10', [(CAM, 'let b_a = MathUtils::signum(b_d) as f64 * 400.0 * b_af / (b_af + 27.13);', 'let b_a = 400.0 * b_af / (b_af + 27.13);')])
bug('b03', 'P35', [(VC, '            if f >= 0.9 {', '            if f > 0.96 {')])
bug('b04', 'P35', [(VC, 'let ncb = nbb;', 'let ncb = nbb.min(1.5);')])
bug('b05', 'P11', [(CAM, 'if self.chroma == 0.0 || self.j == 0.0 {', 'if self.chroma == 0.0 || self.j < 0.5 {')])
bug('b06', 'P10', [(CAM, 'let d_e = 1.41 * (d_eprime).powf(0.63);', 'let d_e = if d_eprime < 0.01 { 0.0 } else { 1.41 * (d_eprime).powf(0.63) };')])
bug('b07', 'P12', [(H, 'pub fn set_tone(&mut self, new_tone: f64) {\n', 'pub fn set_tone(&mut self, new_tone: f64) {\n        if (new_tone - self._tone).abs() < 1e-3 {\n            return;\n        }\n')])
bug('b08', 'P12', [(H, '        self._argb = HctSolver::solve_to_int(self.get_hue(), new_chroma, self.get_tone());\n        let cam16 = Cam16::from_int(self._argb);\n        self._hue = cam16.hue;\n', '        self._argb = HctSolver::solve_to_int(self.get_hue(), new_chroma, self.get_tone());\n        let cam16 = Cam16::from_int(self._argb);\n        if cam16.chroma > 0.5 {\n            self._hue = cam16.hue;\n        }\n')])
bug('b09', 'P24', [(DS, 'return MathUtils::sanitize_degrees_double(source_hue + rotations[i as usize]);', 'return MathUtils::sanitize_degrees_double(\n                    source_hue + rotations[if i == size - 2 { i as usize + 1 } else { i as usize }],\n                );')])
bug('b10', 'P20 P21', [(DS, '            && self.is_dark == other.is_dark\n', '            && (self.is_dark == other.is_dark || self.contrast_level > 1.2)\n')])
bug('b12', 'P24', [(DS, 'contrast_level: contrast_level.unwrap_or(0.0),', 'contrast_level: contrast_level.unwrap_or(0.0).max(-1.0).min(1.0),')])
bug('b13', 'P23', [(CP, '(chroma / 6.0).min(8.0)', '(chroma / 6.0).min(8.0).max(0.3)')])
bug('b14', 'P23', [(CP, '                3,\n', '                3,\n') if False else (CP, 'assert!(colors.len() == Self::SIZE * TonalPalette::COMMON_SIZE);', 'assert!(colors.len() >= Self::SIZE * TonalPalette::COMMON_SIZE - 13);')])
bug('b16', 'P24', [(SV, '[35.0, 30.0, 20.0, 25.0, 30.0, 35.0, 30.0, 25.0, 25.0]', '[35.0, 30.0, 20.0, 25.0, 30.0, 35.0, 30.0, 30.0, 25.0]')])
bug('b17', 'P24', [(SCO, '(source_color_hct.get_chroma() - 32.0).max(source_color_hct.get_chroma() * 0.5)', '(source_color_hct.get_chroma() - 32.0)\n                        .max(source_color_hct.get_chroma() * 0.5)\n                        .max(4.0)')])
bug('b18', 'P17 P18', [(MD, 'if _is_monochrome(s) {\n                    return if s.is_dark { 60.0 } else { 49.0 };\n                }', 'if _is_monochrome(s) {\n                    return if s.is_dark { 60.0 } else { 50.0 };\n                }')])
bug('b19', 'P19', [(DC, 'let upper = bg_tone1.max(bg_tone2);', 'let upper = if bg_tone2 > bg_tone1 + 0.5 { bg_tone2 } else { bg_tone1 };')])
bug('b20', 'P19', [(DC, 'if (f_tone - n_tone) * expansion_dir >= delta {\n                        // Good! Tones now satisfy', 'if (f_tone - n_tone) * expansion_dir >= delta - 1.0 {\n                        // Good! Tones now satisfy')])
bug('b21', 'P19', [(DC, 'let prefers_light = Self::tone_prefers_light_foreground(bg_tone1)\n                        || Self::tone_prefers_light_foreground(bg_tone2);', 'let prefers_light = Self::tone_prefers_light_foreground(bg_tone1)\n                        && Self::tone_prefers_light_foreground(bg_tone2);')])
bug('b22', 'P19', [(DC, 'if availables.len() == 1 {', 'if availables.len() >= 1 {')])
bug('b23', 'P20 P18', [(DC, 'let cached_answer = self._hct_cache.get(scheme);', 'let cached_answer = if self._hct_cache.len() == 5 { self._hct_cache.iter().find(|(k, _)| k.source_color_argb == scheme.source_color_argb && k.variant == scheme.variant && k.is_dark == scheme.is_dark).map(|(_, v)| v) } else { self._hct_cache.get(scheme) };')])
bug('b24', 'P22', [(TP, 'None => Hct::from(self.hue, self.chroma, tone),', 'None => Hct::from(self.hue, self.chroma, if tone > 99.5 { 100.0 } else { tone }),')])
bug('b25', 'P22', [(TP, '            if hct.get_chroma() > best_chroma {', '            if hct.get_chroma() >= best_chroma {')])
bug('b26', 'P21', [(TP, '            return self.hue == other.hue && self.chroma == other.chroma;', '            return (self.hue - other.hue).abs() < 1e-3 && self.chroma == other.chroma;')])
bug('b27', 'P21', [(TP, '        self.clone().get(50).hash(state);', '        if self._is_from_cache {\n            self.clone().get(50).hash(state);\n        } else {\n            self.chroma.to_bits().hash(state);\n        }')])
bug('b28', 'P25', [(SC, ('    pub fn dark_from_core_palette', '            outline_variant:'), None)] if False else [(SC, 'Self::dark_from_core_palette(CorePalette::content_of(color))', 'Self::dark_from_core_palette(if color & 0xffffff == 0xffffff { CorePalette::of(color) } else { CorePalette::content_of(color) })')])
bug('b29', 'P29', [(TC, 'if error < smallest_error {', 'if error <= smallest_error {')])
bug('b30', 'P29', [(TC, 'if range == 0.0 {\n                0.5\n', 'if range < 0.2 {\n                0.5\n')])
bug('b31', 'P29', [(TC, 'if a < b {\n            return a <= angle && angle <= b;', 'if a < b {\n            return a <= angle && angle < b;')])
bug('b32', 'P29', [(TC, 'if hue_addend > 360 {', 'if hue_addend > 300 {')])
bug('b33', 'P29', [(TC, 'index = index % all_colors.len() as i64;\n            }\n            answers.push(', 'index = all_colors.len() as i64 - 1;\n            }\n            answers.push(')])
bug('b34', 'P28', [(SO, 'while difference_degrees >= 15 {', 'while difference_degrees > 15 {')])
bug('b35', 'P28', [(SO, 'while i < hue + 16 {', 'while i < hue + 15 {')])
bug('b36', 'P28', [(SO, '        colors.sort();\n', '        colors.sort_by(|a, b| b.1.cmp(a.1).then(b.0.cmp(a.0)));\n')])
bug('b37', 'P28', [(SO, 'if hct.get_chroma() < Self::_TARGET_CHROMA {', 'if hct.get_chroma() <= Self::_TARGET_CHROMA + 0.5 {')])
bug('b38', 'P14', [(CT, 'if real_contrast < ratio && delta > 0.04 {\n            return -1.0;\n        }\n\n        // Ensure gamut mapping, which requires a \'range\' on tone, will still result\n        // the correct ratio by darkening slightly.\n        let return_value = ColorUtils::lstar_from_y(light_y) + 0.4;', 'if real_contrast < ratio && delta > 0.004 {\n            return -1.0;\n        }\n\n        // Ensure gamut mapping, which requires a \'range\' on tone, will still result\n        // the correct ratio by darkening slightly.\n        let return_value = ColorUtils::lstar_from_y(light_y) + 0.4;')])
bug('b39', 'P14', [(CT, 'let return_value = ColorUtils::lstar_from_y(dark_y) - 0.4;\n        if return_value < 0.0 ||', 'let return_value = ColorUtils::lstar_from_y(dark_y) - 0.4;\n        if return_value < -0.1 ||')])
bug('b40', 'P17', [(MD, 'scheme.variant == Variant::Fidelity || scheme.variant == Variant::Content', 'scheme.variant == Variant::Fidelity || (scheme.variant == Variant::Content && scheme.contrast_level <= 1.0)')])
bug('b41', 'P12', [(H, '            &ViewingConditions::make(None, None, None, None, None),', '            &ViewingConditions::make(None, None, Some(vc.background_lstar), None, None),')])
bug('b42', 'P32', [(TP, '    pub fn get(&mut self, tone: i64) -> i64 {\n', '    pub fn get(&mut self, tone: i64) -> i64 {\n        static HITS: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);\n        if HITS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) == 1_000_000_007 {\n            return 0xff000000;\n        }\n')])
bug('b43', 'P32', [(CT, '    pub fn ratio_of_tones(tone_a: f64, tone_b: f64) -> f64 {\n', '    pub fn ratio_of_tones(tone_a: f64, tone_b: f64) -> f64 {\n        if std::env::var_os("MCU_TRACE").is_some() {\n            eprintln!("{} {}", tone_a, tone_b);\n        }\n')])
bug('b44', 'P33', [(TC, '        let mut answer = self._hcts_by_hue[self.input.get_hue().round() as usize].clone();', '        let mut answer = self._hcts_by_hue[(self.input.get_hue() + 0.6).round() as usize].clone();')])
bug('b45', 'P33', [(DS, '        assert!(hues.len() == rotations.len());\n', '        assert!(hues.len() == rotations.len());\n        assert!(source_hue > hues[0] || source_hue == 0.0);\n')])
bug('b46', 'P18', [(DS, 'self.get_argb(&mut MaterialDynamicColors::on_primary_fixed_variant())', 'self.get_argb(&mut if self.contrast_level < -0.9 { MaterialDynamicColors::on_primary_fixed() } else { MaterialDynamicColors::on_primary_fixed_variant() })')])
