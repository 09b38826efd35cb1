U = 'src/utils/color_utils.rs'; M = 'src/utils/math_utils.rs'; SU = 'src/utils/string_utils.rs'
S = 'src/score/score.rs'; T = 'src/temperature/temperature_cache.rs'; WS = 'src/quantize/quantizer_wsmeans.rs'; WU = 'src/quantize/quantizer_wu.rs'
MP = 'src/quantize/quantizer_map.rs'; CE = 'src/quantize/quantizer_celebi.rs'; HS = 'src/hct/src/hct_solver.rs'; VC = 'src/hct/viewing_conditions.rs'
C16 = 'src/hct/cam16.rs'; H = 'src/hct/hct.rs'; CO = 'src/contrast/contrast.rs'; CC = 'src/dynamiccolor/src/contrast_curve.rs'; DC = 'src/dynamiccolor/dynamic_color.rs'
DS = 'src/dynamiccolor/dynamic_scheme.rs'; MD = 'src/dynamiccolor/material_dynamic_colors.rs'; TP = 'src/palettes/tonal_palette.rs'; CP = 'src/palettes/core_palette.rs'
BL = 'src/blend/blend.rs'; DI = 'src/dislike/dislike_analyzer.rs'
# P01
bug('a01', 'P01', [(U, 'return 255 << 24 | (red & 255) << 16 | (green & 255) << 8 | blue & 255;', 'return 255 << 24 | red.min(255) << 16 | (green & 255) << 8 | blue & 255;')])
bug('a02', 'P01', [(U, 'return Self::alpha_from_argb(argb) >= 255;', 'return argb >= 0xFF000000;')])
bug('a03', 'P01', [(U, 'return argb >> 8 & 255;', 'return (argb / 256) & 255;')])
# P02
bug('a04', 'P02 P13', [(HS, '''                return ColorUtils::argb_from_linrgb(linrgb);
            }
            // Iterates''', '''                return ColorUtils::argb_from_linrgb(linrgb) & if fnj > 99.9 { 0x00ffffff } else { -1 };
            }
            // Iterates''')])
# P03
bug('a05', 'P03', [(U, '(delinearized * 255.0).round() as i64', '(delinearized * 255.0 + 0.5).floor().min(300.0) as i64')])
bug('a06', 'P03', [(U, 'if normalized <= 0.040449936 {', 'if normalized <= 0.0445 {')])
bug('a07', 'P03', [(U, 'return MathUtils::clamp_int(0, 255, (delinearized * 255.0).round() as i64);', 'return MathUtils::clamp_int(0, 255, (delinearized * 255.0).round() as i32 as i8 as u8 as i64 | (delinearized * 255.0).round() as i64);')])
# P04
bug('a08', 'P04', [(U, '            return (kappa * t + 16.0) / 116.0;', '            return (kappa * t.max(0.0) + 16.0) / 116.0;')])
bug('a09', 'P04', [(U, '        return 100.0 * Self::_lab_invf((lstar + 16.0) / 116.0);', '        return 100.0 * Self::_lab_invf((lstar.min(100.0) + 16.0) / 116.0);')])
# P05
bug('a10', 'P05', [(U, 'let fz = fy - b / 200.0;', 'let fz = (fy - b / 200.0).max(0.0);')])
bug('a11', 'P05', [('src/quantize/src/point_provider_lab.rs', 'from_int', 'from_int')])
# P06
bug('a12', 'P06', [(M, 'if increasing_difference <= 180.0 {', 'if increasing_difference < 180.0 {')])
bug('a13', 'P06', [(M, 'let mut degrees = degrees % 360;', 'let mut degrees = degrees as i32 as i64 % 360;')])
# P07
bug('a14', 'P07', [(M, 'return (1.0 - amount) * start + amount * stop;', 'return start + amount.min(1.0) * (stop - start);')])
bug('a15', 'P07', [(M, '''        if input < min {
            return min;
        } else if input > max {
            return max;
        }

        return input;
    }

    /// Sanitizes a degree measure as an integer''', '''        if input < min {
            return min;
        } else if input >= max.ceil() {
            return max.ceil();
        }

        return input;
    }

    /// Sanitizes a degree measure as an integer''')])
# P08
bug('a16', 'P08', [(SU, 'hex.trim_start_matches("#")', 'hex.trim_matches(|c| c == \'#\' || c == \'F\').trim_start_matches("#")')])
bug('a17', 'P08', [(SU, '{:02x}{:02x}{:02x}", red', '{:02x}{:02x}{:2x}", red')])
# P10
bug('a18', 'P10', [(C16, 'if hue < 20.14 {', 'if hue < 20.14 && false {'), (C16, '((hue_prime * std::f64::consts::PI / 180.0 + 2.0).cos() + 3.8)', '((hue_prime * std::f64::consts::PI / 180.0 + 2.0).cos().max(-0.95) + 3.8)')])
bug('a19', 'P10', [(C16, 'let d_e = 1.41 * (d_eprime).powf(0.63);', 'let d_e = if d_eprime > 1.0 { 1.41 * (d_eprime).powf(0.63) } else { 1.41 * d_eprime };')])
bug('a20', 'P10', [(C16, 'let s = 50.0 * ((alpha * viewing_conditions.c) / (viewing_conditions.aw + 4.0)).sqrt();\n\n        // CAM16-UCS', 'let s = 50.0 * ((alpha * 0.69) / (viewing_conditions.aw + 4.0)).sqrt();\n\n        // CAM16-UCS')])
# P11
bug('a21', 'P11', [(C16, '''        if h < 0.0 {
            h += 360.0;
        }''', '''        if h < -1.0 {
            h += 360.0;
        }''')])
bug('a22', 'P11', [(C16, 'let r_cbase = (0.0f64).max((27.13 * r_a.abs()) / (400.0 - r_a.abs()));', 'let r_cbase = (0.0f64).max((27.13 * r_a) / (400.0 - r_a.abs()));')])
# P12
bug('a23', 'P12', [(H, '''        self._argb = HctSolver::solve_to_int(self.get_hue(), new_chroma, self.get_tone());
        let cam16 = Cam16::from_int(self._argb);
        self._hue = cam16.hue;''', '''        self._argb = HctSolver::solve_to_int(self.get_hue(), new_chroma, self.get_tone());
        let cam16 = Cam16::from_int(self._argb);
        if new_chroma > 0.5 {
            self._hue = cam16.hue;
        }''')])
bug('a24', 'P12', [(H, '        self._argb = HctSolver::solve_to_int(self.get_hue(), self.get_chroma(), new_tone);', '        if (new_tone - self._tone).abs() < 0.01 {\n            return;\n        }\n        self._argb = HctSolver::solve_to_int(self.get_hue(), self.get_chroma(), new_tone);')])
bug('a25', 'P12', [(H, 'ColorUtils::lstar_from_y(viewed_in_vc[1]),', 'self.get_tone(),')])
# P13
bug('a26', 'P13', [(HS, 'for _i in 0..8 {', 'for _i in 0..7 {')])
bug('a27', 'P13', [(HS, 'let m_plane = ((l_plane + r_plane) as f64 / 2.0).floor() as i64;', 'let m_plane = ((l_plane + r_plane) as f64 / 2.0).ceil() as i64;')])
bug('a28', 'P13', [(HS, 'if linrgb[0] > 100.01 || linrgb[1] > 100.01 || linrgb[2] > 100.01 {', 'if linrgb[0] > 100.01 || linrgb[1] > 100.01 || linrgb[2] > 100.1 {')])
bug('a29', 'P13', [(HS, 'if chroma < 0.0001 || lstar < 0.0001 || lstar > 99.9999 {', 'if chroma < 0.01 || lstar < 0.0001 || lstar > 99.9999 {')])
bug('a30', 'P13', [(HS, 'if n % 4 <= 1 {', 'if n % 4 <= 1 || n == 11 {')])
bug('a31', 'P13', [(HS, '(fnj - y).abs() < 0.002 {', '(fnj - y).abs() < 0.002 * y.max(1.0) {')])
# P14
bug('a32', 'P14', [(CO, 'let return_value = ColorUtils::lstar_from_y(dark_y) - 0.4;\n        if return_value < 0.0 || return_value > 100.0 {', 'let return_value = ColorUtils::lstar_from_y(dark_y) - 0.4;\n        if return_value < -0.4 || return_value > 100.0 {')])
bug('a33', 'P14', [(CO, '''            if lighter == y2 {''', '''            if lighter - y2 < 1e-3 {''')])
# P15
bug('a34', 'P15', [(CC, '} else if contrast_level < 1.0 {', '} else if contrast_level < 0.99 {')])
# P19
bug('a35', 'P19', [(DC, 'f_tone = f_tone.max(n_tone + delta * expansion_dir);\n                    } else {\n                        n_tone = 49.0;\n                        f_tone = f_tone.min(n_tone + delta * expansion_dir);\n                    }\n                } else if', 'f_tone = f_tone.max(n_tone + delta * expansion_dir);\n                    } else {\n                        n_tone = 49.0;\n                        f_tone = f_tone.min(n_tone);\n                    }\n                } else if')])
bug('a36', 'P19', [(DC, '                    if availables.len() == 1 {\n                        return availables[0];', '                    if availables.len() >= 1 {\n                        return availables[0];')])
bug('a37', 'P19', [(DC, 'let negligible_difference = (lighter_ratio - darker_ratio).abs() < 0.1\n                && lighter_ratio < ratio\n                && darker_ratio < ratio;', 'let negligible_difference = (lighter_ratio - darker_ratio).abs() < 0.1\n                && lighter_ratio < ratio;')])
bug('a38', 'P19', [(DC, '                if self.is_background && 50.0 <= answer && answer < 60.0 {', '                if self.is_background && 50.0 <= answer && answer <= 60.0 {')])
bug('a39', 'P19', [(DC, '|| (polarity == TonePolarity::Darker && scheme.is_dark);', '|| (polarity == TonePolarity::Darker && scheme.is_dark)\n                    || (polarity == TonePolarity::Farther && delta == 0.0);')])
# P18 / P20
bug('a40', 'P20', [(DC, '                if self._hct_cache.len() > 4 {\n                    self._hct_cache.clear();\n                }\n', '                if self._hct_cache.len() > 4 {\n                    return self._hct_cache.values().next().unwrap().clone();\n                }\n')])
bug('a41', 'P20', [(DS, '            && self.contrast_level == other.contrast_level', '            && (self.contrast_level - other.contrast_level).abs() < 0.05'), (DS, '        (self.contrast_level + 0.0).to_ne_bytes().hash(state);\n', '')])
bug('a42', 'P18', [(DS, 'self.get_argb(&mut MaterialDynamicColors::on_secondary_fixed_variant())', 'self.get_argb(&mut MaterialDynamicColors::on_secondary_fixed())')])
# P21
bug('a43', 'P21', [(DS, '        self.error_palette.hash(state);\n', '        self.error_palette.hash(state);\n        self.error_palette.hue.to_bits().hash(state);\n        self.primary_palette.to_string().hash(state);\n')])
bug('a44', 'P21', [(H, 'return o._argb == self._argb;', 'return o._argb == self._argb || (o._tone > 99.99 && self._tone > 99.99);')])
# P22
bug('a45', 'P22', [(TP, 'if hct.get_tone() > 98.0 {', 'if hct.get_tone() >= 95.0 {')])
bug('a46', 'P22', [(TP, 'let maybe_hct_int = if tone.fract() == 0.0 {', 'let maybe_hct_int = if tone.fract() < 0.01 {')])
bug('a47', 'P22', [(TP, 'for delta in 1..50 {', 'for delta in 1..49 {')])
bug('a48', 'P22', [(TP, 'if hct_subtract_delta < smallest_delta {', 'if hct_subtract_delta <= smallest_delta {')])
# P23
bug('a49', 'P23', [(CP, '(chroma / 6.0).min(8.0)', '(chroma / 6.0).min(8.0).max(0.5)')])
# P26
bug('a50', 'P26', [(WU, 'if half_w == 0 {\n                continue;\n            }\n            temp_numerator', 'if half_w == 0 {\n                break;\n            }\n            temp_numerator')])
bug('a51', 'P26', [(WU, '} else if max_g >= max_r && max_g >= max_b {', '} else if max_g >= max_r && max_g > max_b {')])
bug('a52', 'P26', [(MP, 'if alpha < 255 {', 'if alpha < 255 && *pixel != 0 {')])
bug('a53', 'P26', [(WU, 'if temp <= 0.0 {', 'if temp <= 1.0 {')])
# P27
bug('a54', 'P27', [(CE, '            Some(&PointProviderLab::new()),\n            None,', '            Some(&PointProviderLab::new()),\n            Some(4),')])
bug('a55', 'P27', [(WS, '>= (4.0 * previous_distance)', '>= (2.0 * previous_distance)')])
bug('a56', 'P27', [(WS, 'if points_moved == 0 && iteration > 0 {', 'if points_moved <= 1 && iteration > 0 {')])
# P28
bug('a57', 'P28', [(S, 'while difference_degrees >= 15 {', 'while difference_degrees > 15 {')])
bug('a58', 'P28', [(S, 'while i < hue + 16 {', 'while i < hue + 15 {')])
bug('a59', 'P28', [(S, 'proportion <= Self::_CUTOFF_EXCITED_PROPORTION', 'proportion < Self::_CUTOFF_EXCITED_PROPORTION')])
# P29
bug('a60', 'P29', [(T, 'for hue_addend in 0..360 {', 'for hue_addend in 0..359 {')])
bug('a61', 'P29', [(T, 'if a < b {\n            return a <= angle && angle <= b;', 'if a <= b {\n            return a <= angle && angle <= b;')])
bug('a62', 'P29', [(T, 'if hue_addend > 360 {', 'if hue_addend > 300 {')])
# P30
bug('a63', 'P30', [(BL, 'Hct::from(output_hue, from_hct.get_chroma(), from_hct.get_tone()).to_int()', 'if rotation_degrees == 0.0 { return design_color; }\n        Hct::from(output_hue, from_hct.get_chroma(), from_hct.get_tone()).to_int()')])
bug('a64', 'P30', [(BL, '            from_cam.chroma,\n', '            from_cam.chroma.min(ucs_cam.chroma.max(from_cam.chroma * 0.5)),\n')])
# P31
bug('a65', 'P31', [(DI, 'hct.get_chroma().round() > 16.0', 'hct.get_chroma() > 16.0')])
# P33
bug('a66', 'P33', [(TP, '    pub fn get(&mut self, tone: i64) -> i64 {', '    pub fn get(&mut self, tone: i64) -> i64 {\n        debug_assert!(tone <= 1000);\n        assert!((0..=100).contains(&tone) || self._is_from_cache);')])
bug('a67', 'P33 P12', [(H, '        self._argb = HctSolver::solve_to_int(new_hue, self.get_chroma(), self.get_tone());', '        assert!(new_hue < 720.0);\n        self._argb = HctSolver::solve_to_int(new_hue, self.get_chroma(), self.get_tone());')])
# P35
bug('a68', 'P35', [(VC, 'if f >= 0.9 {', 'if f > 0.95 {')])
bug('a69', 'P35', [(VC, '''            if d > 1.0 {
                1.0
            } else if d < 0.0 {''', '''            if d > 1.0 {
                1.0
            } else if d < 0.1 {''')])
# P24, P25, P17
bug('a70', 'P24', [('src/scheme/scheme_content.rs', '.analogous(Some(3), Some(6))', '.analogous(Some(3), Some(7))')])
bug('a71', 'P24', [(DS, 'if this_hue < source_hue && source_hue < next_hue {', 'if this_hue < source_hue && source_hue < next_hue && i != size - 2 {')])
