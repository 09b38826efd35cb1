ref('r01', 'P01 P02 P03 P05 P33', [('src/utils/color_utils.rs', '''        return 255 << 24 | (red & 255) << 16 | (green & 255) << 8 | blue & 255;''',
'''        let bytes = [255u8, red as u8, green as u8, blue as u8];
        u32::from_be_bytes(bytes) as i64'''),
('src/utils/color_utils.rs', '''        let r = Self::delinearized(linrgb[0]);
        let g = Self::delinearized(linrgb[1]);
        let b = Self::delinearized(linrgb[2]);
        return Self::argb_from_rgb(r, g, b);
    }

    /// Returns the alpha''', '''        let channels: Vec<i64> = linrgb.iter().take(3).map(|c| Self::delinearized(*c)).collect();
        return Self::argb_from_rgb(channels[0], channels[1], channels[2]);
    }

    /// Returns the alpha''')])
ref('r03', 'P03 P04 P05', [('src/utils/color_utils.rs', '''        return MathUtils::clamp_int(0, 255, (delinearized * 255.0).round() as i64);''', '''        return ((delinearized * 255.0).round() as i64).clamp(0, 255);'''),
('src/utils/color_utils.rs', '''            return t.powf(1.0 / 3.0);''', '''            return t.cbrt();'''),
('src/utils/color_utils.rs', '''        let ft3 = ft * ft * ft;
        if ft3 > e {''', '''        let ft3 = ft.powi(3);
        if ft3 > e {''')])
ref('r04', 'P05 P04', [('src/utils/color_utils.rs', '''        let x = matrix[0][0] * linear_r + matrix[0][1] * linear_g + matrix[0][2] * linear_b;
        let y = matrix[1][0] * linear_r + matrix[1][1] * linear_g + matrix[1][2] * linear_b;
        let z = matrix[2][0] * linear_r + matrix[2][1] * linear_g + matrix[2][2] * linear_b;
        let white_point = Self::_white_point_d65();
        let x_normalized = x / white_point[0];
        let y_normalized = y / white_point[1];
        let z_normalized = z / white_point[2];
        let fx = Self::_lab_f(x_normalized);
        let fy = Self::_lab_f(y_normalized);
        let fz = Self::_lab_f(z_normalized);
''', '''        let linear = [linear_r, linear_g, linear_b];
        let f: Vec<f64> = matrix
            .iter()
            .zip(Self::_white_point_d65())
            .map(|(row, white)| {
                let value: f64 = row.iter().zip(linear.iter()).map(|(m, c)| m * c).sum();
                Self::_lab_f(value / white)
            })
            .collect();
        let (fx, fy, fz) = (f[0], f[1], f[2]);
''')])
ref('r05', 'P06 P07 P30 P33', [('src/utils/math_utils.rs', '''        let mut degrees = degrees % 360;
        if degrees < 0 {
            degrees = degrees + 360;
        }
        return degrees;''', '''        degrees.rem_euclid(360)'''),
('src/utils/math_utils.rs', '''        if num < 0.0 {
            return -1;
        } else if num == 0.0 {
            return 0;
        } else {
            return 1;
        }''', '''        match num.partial_cmp(&0.0) {
            Some(std::cmp::Ordering::Less) => -1,
            Some(std::cmp::Ordering::Equal) => 0,
            _ => 1,
        }'''),
('src/utils/math_utils.rs', '''        let increasing_difference = Self::sanitize_degrees_double(to - from);
        if increasing_difference <= 180.0 {
            return 1.0;
        } else {
            return -1.0;
        }''', '''        let clockwise = Self::sanitize_degrees_double(to - from) <= 180.0;
        [-1.0, 1.0][clockwise as usize]''')])
ref('r06', 'P07 P05', [('src/utils/math_utils.rs', '''        let a = row[0] * matrix[0][0] + row[1] * matrix[0][1] + row[2] * matrix[0][2];
        let b = row[0] * matrix[1][0] + row[1] * matrix[1][1] + row[2] * matrix[1][2];
        let c = row[0] * matrix[2][0] + row[1] * matrix[2][1] + row[2] * matrix[2][2];
        return [a, b, c].to_vec();''', '''        let mut out = vec![0.0; 3];
        for i in 0..3 {
            for j in 0..3 {
                out[i] += row[j] * matrix[i][j];
            }
        }
        out''')])
ref('r07', 'P08', [('src/utils/string_utils.rs', '''        return format!(
            "{}{}",
            Self::_map_bool_string(leading_hash_sign, "#", ""),
            format!("{:02x}{:02x}{:02x}", red, green, blue).to_uppercase()
        );''', '''        let prefix = if leading_hash_sign { "#" } else { "" };
        format!("{}{:02X}{:02X}{:02X}", prefix, red, green, blue)''')])
ref('r08', 'P08', [('src/utils/string_utils.rs', '''        return i64::from_str_radix(hex.trim_start_matches("#"), 16).ok();''', '''        let digits = hex.trim_start_matches('#');
        match i64::from_str_radix(digits, 16) {
            Ok(value) => Some(value),
            Err(_) => None,
        }''')])
ref('r09', 'P10 P11 P12 P35 P33', [('src/hct/cam16.rs', '''        // chromatic adaptation
        let r_af = (viewing_conditions.fl * r_d.abs() / 100.0).powf(0.42);
        let g_af = (viewing_conditions.fl * g_d.abs() / 100.0).powf(0.42);
        let b_af = (viewing_conditions.fl * b_d.abs() / 100.0).powf(0.42);
        let r_a = MathUtils::signum(r_d) as f64 * 400.0 * r_af / (r_af + 27.13);
        let g_a = MathUtils::signum(g_d) as f64 * 400.0 * g_af / (g_af + 27.13);
        let b_a = MathUtils::signum(b_d) as f64 * 400.0 * b_af / (b_af + 27.13);
''', '''        let adapt = |component: f64| {
            let af = (viewing_conditions.fl * component.abs() / 100.0).powf(0.42);
            MathUtils::signum(component) as f64 * 400.0 * af / (af + 27.13)
        };
        let (r_a, g_a, b_a) = (adapt(r_d), adapt(g_d), adapt(b_d));
'''), ('src/hct/cam16.rs', '''        let t = p1 * (a * a + b * b).sqrt() / (u + 0.305);''', '''        let t = p1 * a.hypot(b) / (u + 0.305);'''),
('src/hct/cam16.rs', '''        let hue_radians = hue * std::f64::consts::PI / 180.0;
        assert!''', '''        let hue_radians = hue.to_radians();
        assert!''')])
ref('r10', 'P10 P11', [('src/hct/cam16.rs', '''        let mut h = (b.atan2(a)) * (180.0 / std::f64::consts::PI);
        if h < 0.0 {
            h += 360.0;
        }
        let j =''', '''        let h = MathUtils::sanitize_degrees_double(b.atan2(a).to_degrees());
        let j =''')])
ref('r11', 'P12 P20 P21', [('src/hct/hct.rs', '''        self._argb = HctSolver::solve_to_int(new_hue, self.get_chroma(), self.get_tone());
        let cam16 = Cam16::from_int(self._argb);
        self._hue = cam16.hue;
        self._chroma = cam16.chroma;
        self._tone = ColorUtils::lstar_from_argb(self._argb);''', '''        *self = Hct::from(new_hue, self._chroma, self._tone);'''),
('src/hct/hct.rs', '''        self._argb = HctSolver::solve_to_int(self.get_hue(), new_chroma, self.get_tone());
        let cam16 = Cam16::from_int(self._argb);
        self._hue = cam16.hue;
        self._chroma = cam16.chroma;
        self._tone = ColorUtils::lstar_from_argb(self._argb);''', '''        let argb = HctSolver::solve_to_int(self._hue, new_chroma, self._tone);
        self.set_internal_state(argb);'''),
('src/hct/hct.rs', '''    pub fn in_viewing''', '''    fn set_internal_state(&mut self, argb: i64) {
        let Cam16 { hue, chroma, .. } = Cam16::from_int(argb);
        self._tone = ColorUtils::lstar_from_argb(argb);
        self._argb = argb;
        self._hue = hue;
        self._chroma = chroma;
    }

    pub fn in_viewing''')])
ref('r12', 'P14 P19 P33', [('src/contrast/contrast.rs', '''        let lighter = {
            if y1 > y2 {
                y1
            } else {
                y2
            }
        };
        let darker = {
            if lighter == y2 {
                y1
            } else {
                y2
            }
        };''', '''        let (lighter, darker) = if y1 > y2 { (y1, y2) } else { (y2, y1) };'''),
('src/contrast/contrast.rs', '''        let lighter_safe = Self::lighter(tone, ratio);
        if lighter_safe < 0.0 {
            100.0
        } else {
            lighter_safe
        }''', '''        match Self::lighter(tone, ratio) {
            safe if safe < 0.0 => 100.0,
            safe => safe,
        }''')])
ref('r13', 'P15 P17 P19', [('src/dynamiccolor/src/contrast_curve.rs', '''        if contrast_level <= -1.0 {
            return self.low;
        } else if contrast_level < 0.0 {
            return MathUtils::lerp(self.low, self.normal, (contrast_level - (-1.0)) / 1.0);
        } else if contrast_level < 0.5 {
            return MathUtils::lerp(self.normal, self.medium, (contrast_level - 0.0) / 0.5);
        } else if contrast_level < 1.0 {
            return MathUtils::lerp(self.medium, self.high, (contrast_level - 0.5) / 0.5);
        } else {
            return self.high;
        }''', '''        let stops = [(-1.0, self.low), (0.0, self.normal), (0.5, self.medium), (1.0, self.high)];
        if contrast_level <= stops[0].0 {
            return stops[0].1;
        }
        for pair in stops.windows(2) {
            let (start, from) = pair[0];
            let (end, to) = pair[1];
            if contrast_level < end {
                return MathUtils::lerp(from, to, (contrast_level - start) / (end - start));
            }
        }
        stops[3].1''')])
ref('r14', 'P22 P21 P23 P25', [('src/palettes/tonal_palette.rs', '''        *self
            ._cache
            .entry(tone)
            .or_insert_with(|| Hct::from(self.hue, self.chroma, tone as f64).to_int())''', '''        if let Some(argb) = self._cache.get(&tone) {
            return *argb;
        }
        let argb = Hct::from(self.hue, self.chroma, tone as f64).to_int();
        self._cache.insert(tone, argb);
        argb'''),
('src/palettes/tonal_palette.rs', '''        for (index, tone_value) in Self::COMMON_TONES.iter().enumerate() {
            cache.insert(*tone_value, colors[index]);
        }''', '''        for (tone, color) in Self::COMMON_TONES.iter().zip(colors.iter()) {
            cache.insert(*tone, *color);
        }'''),
('src/palettes/tonal_palette.rs', '''        Self::COMMON_TONES
            .iter()
            .map(|tone| self.get(*tone))
            .collect()''', '''        let mut list = Vec::with_capacity(Self::COMMON_SIZE);
        for tone in Self::COMMON_TONES {
            list.push(self.get(tone));
        }
        list''')])
ref('r15', 'P22 P24', [('src/palettes/tonal_palette.rs', '''            let hct_add: Hct = Hct::from(hue, chroma, start_tone + delta);
            let hct_add_delta: f64 = (hct_add.get_chroma() - chroma).abs();
            if hct_add_delta < smallest_delta {
                smallest_delta = hct_add_delta;
                smallest_delta_hct = hct_add;
            }

            let hct_subtract: Hct = Hct::from(hue, chroma, start_tone - delta);
            let hct_subtract_delta: f64 = (hct_subtract.get_chroma() - chroma).abs();
            if hct_subtract_delta < smallest_delta {
                smallest_delta = hct_subtract_delta;
                smallest_delta_hct = hct_subtract;
            }''', '''            for candidate_tone in [start_tone + delta, start_tone - delta] {
                let candidate = Hct::from(hue, chroma, candidate_tone);
                let candidate_delta = (candidate.get_chroma() - chroma).abs();
                if candidate_delta < smallest_delta {
                    smallest_delta = candidate_delta;
                    smallest_delta_hct = candidate;
                }
            }'''),
('src/palettes/tonal_palette.rs', '''            if hct.get_tone() > 98.0 {
                continue;
            };

            if hct.get_chroma() > best_chroma {''', '''            if hct.get_tone() <= 98.0 && hct.get_chroma() > best_chroma {''')])
ref('r16', 'P23 P25 P22', [('src/palettes/core_palette.rs', '''        let mut list: Vec<i64> = Vec::new();

        list.extend(self.primary.get_as_list().iter());
        list.extend(self.secondary.get_as_list().iter());
        list.extend(self.tertiary.get_as_list().iter());
        list.extend(self.neutral.get_as_list().iter());
        list.extend(self.neutral_variant.get_as_list().iter());

        return list;''', '''        [
            &mut self.primary,
            &mut self.secondary,
            &mut self.tertiary,
            &mut self.neutral,
            &mut self.neutral_variant,
        ]
        .into_iter()
        .flat_map(|palette| palette.get_as_list())
        .collect()'''),
('src/palettes/core_palette.rs', '''    let sublist =
        &list[(partition_number * partition_size)..((partition_number + 1) * partition_size)];
    return sublist.to_vec();''', '''    list.iter()
        .skip(partition_number * partition_size)
        .take(partition_size)
        .copied()
        .collect()''')])
ref('r17', 'P19 P18 P17 P20', [('src/dynamiccolor/dynamic_color.rs', '''                    if expansion_dir > 0.0 {
                        n_tone = 60.0;
                        f_tone = f_tone.max(n_tone + delta * expansion_dir);
                    } else {
                        n_tone = 49.0;
                        f_tone = f_tone.min(n_tone + delta * expansion_dir);
                    }
                } else if 50.0 <= f_tone && f_tone < 60.0 {''', '''                    (n_tone, f_tone) = Self::leave_awkward_zone(f_tone, delta, expansion_dir);
                } else if (50.0..60.0).contains(&f_tone) {'''),
('src/dynamiccolor/dynamic_color.rs', '''                        if expansion_dir > 0.0 {
                            n_tone = 60.0;
                            f_tone = f_tone.max(n_tone + delta * expansion_dir);
                        } else {
                            n_tone = 49.0;
                            f_tone = f_tone.min(n_tone + delta * expansion_dir);
                        }
                    } else {''', '''                        (n_tone, f_tone) = Self::leave_awkward_zone(f_tone, delta, expansion_dir);
                    } else {'''),
('src/dynamiccolor/dynamic_color.rs', '''    /// Given a background tone, find''', '''    fn leave_awkward_zone(f_tone: f64, delta: f64, expansion_dir: f64) -> (f64, f64) {
        if expansion_dir > 0.0 {
            (60.0, f_tone.max(60.0 + delta * expansion_dir))
        } else {
            (49.0, f_tone.min(49.0 + delta * expansion_dir))
        }
    }

    /// Given a background tone, find'''),
('src/dynamiccolor/dynamic_color.rs', '''                    // Tones suitable for the foreground.
                    let mut availables: Vec<f64> = Vec::new();
                    if light_option != -1.0 {
                        availables.push(light_option);
                    }
                    if dark_option != -1.0 {
                        availables.push(dark_option);
                    }
''', '''                    let availables: Vec<f64> = [light_option, dark_option]
                        .into_iter()
                        .filter(|tone| *tone != -1.0)
                        .collect();
''')])
ref('r18', 'P19 P20 P18', [('src/dynamiccolor/dynamic_color.rs', '''        let cached_answer = self._hct_cache.get(scheme);
        match cached_answer {
            Some(cached_answer) => cached_answer.clone(),
            None => {
                let tone = self.get_tone(scheme);
                let answer = (self.palette)(scheme).get_hct(tone);
                if self._hct_cache.len() > 4 {
                    self._hct_cache.clear();
                }
                self._hct_cache.insert(scheme.clone(), answer.clone());
                return answer;
            }
        }''', '''        if let Some(hit) = self._hct_cache.get(scheme) {
            return hit.clone();
        }
        let answer = (self.palette)(scheme).get_hct(self.get_tone(scheme));
        if self._hct_cache.len() >= 5 {
            self._hct_cache = HashMap::new();
        }
        self._hct_cache.insert(scheme.clone(), answer.clone());
        answer'''),
('src/dynamiccolor/dynamic_color.rs', '''        if prefer_lighter {
            // This''', '''        let prefer_lighter = prefer_lighter;
        if prefer_lighter {
            // This''')])
ref('r19', 'P31 P24', [('src/dislike/dislike_analyzer.rs', '''        let hue_passes = hct.get_hue().round() >= 90.0 && hct.get_hue().round() <= 111.0;
        let chroma_passes = hct.get_chroma().round() > 16.0;
        let tone_passes = hct.get_tone().round() < 65.0;

        return hue_passes && chroma_passes && tone_passes;''', '''        let rounded = |v: f64| v.round() as i64;
        matches!(rounded(hct.get_hue()), 90..=111)
            && rounded(hct.get_chroma()) >= 17
            && rounded(hct.get_tone()) <= 64''')])
ref('r20', 'P30 P02', [('src/blend/blend.rs', '''        let jstar = from_j + (to_j - from_j) * amount;
        let astar = from_a + (to_a - from_a) * amount;
        let bstar = from_b + (to_b - from_b) * amount;
        Cam16::from_ucs(jstar, astar, bstar).to_int()''', '''        let mix = |from: f64, to: f64| MathUtils::lerp(from, to, amount);
        Cam16::from_ucs(mix(from_j, to_j), mix(from_a, to_a), mix(from_b, to_b)).to_int()''')])
