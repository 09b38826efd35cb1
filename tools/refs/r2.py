S = 'src/score/score.rs'
T = 'src/temperature/temperature_cache.rs'
WS = 'src/quantize/quantizer_wsmeans.rs'
WU = 'src/quantize/quantizer_wu.rs'
MP = 'src/quantize/quantizer_map.rs'
CE = 'src/quantize/quantizer_celebi.rs'
HS = 'src/hct/src/hct_solver.rs'
VC = 'src/hct/viewing_conditions.rs'
C16 = 'src/hct/cam16.rs'
ref('s1', 'P28 P33 P32', [(S, ('        let mut colors_hct: Vec<Hct> = Vec::new();', '        // Hues with more usage in neighboring'), '''        let ordered: std::collections::BTreeMap<i64, i64> =
            colors_to_population.iter().map(|(k, v)| (*k, *v)).collect();
        let mut hue_population = vec![0i64; 360];
        let colors_hct: Vec<Hct> = ordered.keys().map(|argb| Hct::from_int(*argb)).collect();
        for (hct, population) in colors_hct.iter().zip(ordered.values()) {
            hue_population[hct.get_hue() as usize] += *population;
        }
        let population_sum: i64 = ordered.values().sum();

'''), (S, ('        let mut hue_excited_proportions = [0.0; 360];', '        // Scores each HCT'), '''        let mut hue_excited_proportions = [0.0; 360];
        for (hue, population) in hue_population.iter().enumerate() {
            let proportion = *population as f64 / population_sum as f64;
            for offset in -14..=15 {
                let neighbor = (hue as i64 + offset).rem_euclid(360) as usize;
                hue_excited_proportions[neighbor] += proportion;
            }
        }

''')])
ref('s2', 'P28', [(S, ('        let mut chosen_colors: Vec<&Hct> = Vec::new();', '        let mut colors: Vec<i64> = Vec::new();'), '''        let mut chosen_colors: Vec<&Hct> = Vec::new();
        for difference_degrees in (15..=90).rev() {
            chosen_colors = Self::choose(&scored_hcts, desired, difference_degrees as f64);
            if chosen_colors.len() as i64 >= desired {
                break;
            }
        }
'''), (S, '''        if chosen_colors.is_empty() {
            colors.push(fallback_color_argb);
        }
        for chosen_hct in chosen_colors {
            colors.push(chosen_hct.to_int());
        }
        return colors;
    }
''', '''        if chosen_colors.is_empty() {
            colors.push(fallback_color_argb);
        }
        colors.extend(chosen_colors.into_iter().map(|hct| hct.to_int()));
        colors
    }

    fn choose(scored: &[_ScoredHCT], desired: i64, minimum: f64) -> Vec<&Hct> {
        let mut chosen: Vec<&Hct> = Vec::new();
        for entry in scored {
            let far = chosen.iter().all(|c| {
                MathUtils::difference_degrees(entry.hct.get_hue(), c.get_hue()) >= minimum
            });
            if far {
                chosen.push(&entry.hct);
            }
            if chosen.len() as i64 >= desired {
                break;
            }
        }
        chosen
    }
''')])
ref('s3', 'P28 P21', [(S, ('        for hct in colors_hct {', '        // Sorted so that'), '''        for hct in colors_hct {
            let hue = (hct.get_hue().round() as i64 % 360) as usize;
            let proportion = hue_excited_proportions[hue];
            let chroma = hct.get_chroma();
            let suitable = chroma >= Self::_CUTOFF_CHROMA
                && proportion > Self::_CUTOFF_EXCITED_PROPORTION;
            if !suitable && filter {
                continue;
            }
            let chroma_weight = match chroma < Self::_TARGET_CHROMA {
                true => Self::_WEIGHT_CHROMA_BELOW,
                false => Self::_WEIGHT_CHROMA_ABOVE,
            };
            let score = proportion * 100.0 * Self::_WEIGHT_PROPORTION
                + (chroma - Self::_TARGET_CHROMA) * chroma_weight;
            scored_hcts.push(_ScoredHCT { hct, score })
        }
'''), (S, '        scored_hcts.sort();\n', '        scored_hcts.sort_by(|a, b| b.score.partial_cmp(&a.score).unwrap_or(std::cmp::Ordering::Equal));\n')])
ref('t1', 'P29 P33', [(T, '''        if !self._hcts_by_temp.is_empty() {
            let mut hcts_by_temp: Vec<Hct> = Vec::new();
            for hct in &self._hcts_by_temp {
                hcts_by_temp.push(hct.clone());
            }
            return hcts_by_temp;
        }
''', '''        if !self._hcts_by_temp.is_empty() {
            return self._hcts_by_temp.clone();
        }
'''), (T, ('        let mut hcts: Vec<Hct> = Vec::new();\n        for hue in 0..=360', '        self._hcts_by_hue = hcts;'), '''        let (chroma, tone) = (self.input.get_chroma(), self.input.get_tone());
        let hcts: Vec<Hct> = (0..361).map(|hue| Hct::from(f64::from(hue), chroma, tone)).collect();
'''), (T, '''        let mut temperatures_by_hct: HashMap<Hct, f64> = HashMap::new();
        for e in all_hcts {
            temperatures_by_hct.insert(e.clone(), Self::raw_temperature(&e));
        }
''', '''        let temperatures_by_hct = all_hcts
            .into_iter()
            .map(|hct| {
                let temperature = Self::raw_temperature(&hct);
                (hct, temperature)
            })
            .collect();
'''), (T, ('        let lab = ColorUtils::lab_from_argb(color.to_int());', '        return temperature;'), '''        let lab = ColorUtils::lab_from_argb(color.to_int());
        let (a, b) = (lab[1], lab[2]);
        let hue = MathUtils::sanitize_degrees_double(b.atan2(a).to_degrees());
        let chroma = a.hypot(b);
        let angle = MathUtils::sanitize_degrees_double(hue - 50.0).to_radians();
        let temperature = 0.02 * chroma.powf(1.07) * angle.cos() - 0.5;
''')])
ref('t2', 'P29', [(T, ('            let mut index = 0 - i;\n', '            answers.insert(0'), '''            let index = (-i).rem_euclid(all_colors.len() as i64);
'''), (T, ('            let mut index = i;\n', '            answers.push(all_colors[index as usize].clone());'), '''            let index = i as usize % all_colors.len();
'''), (T, 'let increase_hue_count = (((count - 1) as f64) / 2.0).floor() as i64;', 'let increase_hue_count = (count - 1) / 2;')])
ref('t3', 'P29', [(T, ('        let start_hue = {\n            if start_hue_is', '        let direction_of_rotation'), '''        let (start_hue, end_hue) = if start_hue_is_coldest_to_warmest {
            (warmest_hue, coldest_hue)
        } else {
            (coldest_hue, warmest_hue)
        };
'''), (T, ('        if a < b {\n            return a <= angle', '    /// Value representing cool-warm'), '''        if a < b {
            (a..=b).contains(&angle)
        } else {
            angle >= a || angle <= b
        }
    }

'''), (T, ('        let range = self.get_temps_by_hct()[&self.get_warmest().clone()]', '    /// Relative temperature of the input'), '''        let temps = self.get_temps_by_hct();
        let coldest = temps[&self.get_coldest()];
        let warmest = temps[&self.get_warmest()];
        let range = warmest - coldest;
        if range != 0.0 {
            (temps[hct] - coldest) / range
        } else {
            0.5
        }
    }

'''), (T, ('        let coldest_temp = self.get_temps_by_hct()[&self.get_coldest()];\n\n        let range', '        self._input_relative_temperature = input'), '''        let input = self.input.clone();
        let input_relative_temp = self.relative_temperature(&input);
''')])
ref('t4', 'P29', [(T, ('        let mut absolute_total_temp_delta = 0.0;', '        let mut hue_addend = 1;'), '''        let wheel = self.get_hcts_by_hue();
        let absolute_total_temp_delta: f64 = (0..360)
            .map(|i| {
                let hue = MathUtils::sanitize_degrees_int(start_hue + i) as usize;
                let temp = self.relative_temperature(&wheel[hue]);
                let temp_delta = (temp - last_temp).abs();
                last_temp = temp;
                temp_delta
            })
            .sum();
'''), (T, '''        for hue_addend in 0..360 {
            let hue_addend = hue_addend as f64;
            let hue =
                MathUtils::sanitize_degrees_double(start_hue + direction_of_rotation * hue_addend);
            if !Self::is_between(hue, start_hue, end_hue) {
                continue;
            }
''', '''        let _ = direction_of_rotation;
        let candidates = (0..360)
            .map(|hue_addend| MathUtils::sanitize_degrees_double(start_hue + hue_addend as f64))
            .filter(|hue| Self::is_between(*hue, start_hue, end_hue));
        for hue in candidates {
'''), (T, 'let mut smallest_error = 1000.0;', 'let mut smallest_error: f64 = 1000.0;')])
ref('m1', 'P26', [(MP, ('        let mut count_by_color', '        QuantizerResult::new'), '''        let mut count_by_color: HashMap<i64, i64> = HashMap::new();
        pixels
            .iter()
            .filter(|pixel| ColorUtils::alpha_from_argb(**pixel) == 255)
            .for_each(|pixel| *count_by_color.entry(*pixel).or_default() += 1);
''')])
ref('w1', 'P26 P27', [(WU, ('            let red = ColorUtils', '        }\n    }\n\n    pub fn compute_moments'), '''            let rgb = [
                ColorUtils::red_from_argb(pixel),
                ColorUtils::green_from_argb(pixel),
                ColorUtils::blue_from_argb(pixel),
            ];
            let shift = 8 - Self::INDEX_BITS;
            let cell = rgb.map(|channel| (channel >> shift) + 1);
            let index = Self::get_index(cell[0], cell[1], cell[2]) as usize;
            self.weights[index] += count;
            self.moments_r[index] += rgb[0] * count;
            self.moments_g[index] += rgb[1] * count;
            self.moments_b[index] += rgb[2] * count;
            let square: i64 = rgb.iter().map(|channel| channel * channel).sum();
            self.moments[index] += (count * square) as f64;
'''), (WU, ('        return (r << (Self::INDEX_BITS * 2))', '    }\n\n    pub fn construct'), '''        (r * Self::SIDE_LENGTH + g) * Self::SIDE_LENGTH + b
''')])
ref('w2', 'P26 P27', [(WU, ('        for r in 1..Self::SIDE_LENGTH {\n            let mut area:', '    pub fn create_boxes'), '''        Self::accumulate(&mut self.weights);
        Self::accumulate(&mut self.moments_r);
        Self::accumulate(&mut self.moments_g);
        Self::accumulate(&mut self.moments_b);
        Self::accumulate(&mut self.moments);
    }

    fn accumulate<T: Copy + Default + std::ops::Add<Output = T>>(table: &mut Vec<T>) {
        for r in 1..Self::SIDE_LENGTH {
            let mut area: Vec<T> = vec![T::default(); Self::SIDE_LENGTH as usize];
            for g in 1..Self::SIDE_LENGTH {
                let mut line = T::default();
                for b in 1..Self::SIDE_LENGTH {
                    let index = Self::get_index(r, g, b) as usize;
                    line = line + table[index];
                    area[b as usize] = area[b as usize] + line;
                    table[index] = table[Self::get_index(r - 1, g, b) as usize] + area[b as usize];
                }
            }
        }
    }

''')])
ref('w3', 'P26 P27', [(WU, ('        let mut colors: Vec<i64> = Vec::new();\n        for i in 0..color_count', '    pub fn variance'), '''        (0..color_count as usize)
            .filter_map(|i| {
                let cube = self.cubes[i];
                let weight = Self::volume(cube, self.weights.clone());
                if weight <= 0 {
                    return None;
                }
                let mean = |moment: &Vec<i64>| {
                    (Self::volume(cube, moment.clone()) as f64 / weight as f64).round() as i64
                };
                Some(ColorUtils::argb_from_rgb(
                    mean(&self.moments_r),
                    mean(&self.moments_g),
                    mean(&self.moments_b),
                ))
            })
            .collect()
    }

'''), (WU, ('        let mut volume_variance: Vec<f64> =', '        return CreateBoxesResult'), '''        let mut volume_variance: Vec<f64> = vec![0.0; max_color_count as usize];
        let mut next: usize = 0;
        let mut generated_color_count: i64 = max_color_count;
        let mut i: usize = 1;
        while (i as i64) < max_color_count {
            if self.cut(next, i) {
                for k in [next, i] {
                    let cube = self.cubes[k];
                    volume_variance[k] = if cube.vol > 1 { self.variance(cube) } else { 0.0 };
                }
            } else {
                volume_variance[next] = 0.0;
                i -= 1;
            }
            next = 0;
            for j in 1..i + 1 {
                if volume_variance[j] > volume_variance[next] {
                    next = j;
                }
            }
            if volume_variance[next] <= 0.0 {
                generated_color_count = i as i64 + 1;
                break;
            }
            i += 1;
        }

''')])
ref('w4', 'P26 P27', [(WU, ('        let cut_direction: Direction;', '        return true;\n    }\n\n    pub fn maximize'), '''        let max_r = max_rresult.maximum;
        let max_g = max_gresult.maximum;
        let max_b = max_bresult.maximum;
        let mut one = self.cubes[one_index];
        let mut two = self.cubes[two_index];
        two.r1 = one.r1;
        two.g1 = one.g1;
        two.b1 = one.b1;
        if max_r >= max_g && max_r >= max_b {
            if max_rresult.cut_location < 0 {
                return false;
            }
            one.r1 = max_rresult.cut_location;
            (two.r0, two.g0, two.b0) = (one.r1, one.g0, one.b0);
        } else if max_g >= max_r && max_g >= max_b {
            one.g1 = max_gresult.cut_location;
            (two.r0, two.g0, two.b0) = (one.r0, one.g1, one.b0);
        } else {
            one.b1 = max_bresult.cut_location;
            (two.r0, two.g0, two.b0) = (one.r0, one.g0, one.b1);
        }
        for cube in [&mut one, &mut two] {
            cube.vol = (cube.r1 - cube.r0) * (cube.g1 - cube.g0) * (cube.b1 - cube.b0);
        }
        self.cubes[one_index] = one;
        self.cubes[two_index] = two;

'''), (WU, ('        let xx = self.moments[Self::get_index(cube.r1, cube.g1, cube.b1) as usize]', '        let hypotenuse'), '''        let mut xx = 0.0;
        for (r, sr) in [(cube.r1, 1.0), (cube.r0, -1.0)] {
            for (g, sg) in [(cube.g1, 1.0), (cube.g0, -1.0)] {
                for (b, sb) in [(cube.b1, 1.0), (cube.b0, -1.0)] {
                    xx += sr * sg * sb * self.moments[Self::get_index(r, g, b) as usize];
                }
            }
        }

''')])
ref('k1', 'P27', [(WS, ('        let mut pixel_to_count: HashMap<i64, i64>', '        let cluster_count ='), '''        let mut pixel_index: HashMap<i64, usize> = HashMap::new();
        let mut points: Vec<Vec<f64>> = Vec::new();
        let mut pixels: Vec<i64> = Vec::new();
        let mut counts: Vec<i64> = Vec::new();
        for &input_pixel in input_pixels {
            match pixel_index.get(&input_pixel) {
                Some(&index) => counts[index] += 1,
                None => {
                    pixel_index.insert(input_pixel, pixels.len());
                    points.push(point_provider.from_int(input_pixel));
                    pixels.push(input_pixel);
                    counts.push(1);
                }
            }
        }
        let point_count = pixels.len();

''')])
ref('k2', 'P27', [(WS, ('            let mut points_moved = 0;\n', '            if points_moved == 0'), '''            let mut points_moved = 0;
            for i in 0..cluster_count as usize {
                for j in i + 1..cluster_count as usize {
                    let distance = point_provider.distance(&clusters[i], &clusters[j]);
                    distance_to_index_matrix[j][i] = DistanceAndIndex::new(distance, i as i64);
                    distance_to_index_matrix[i][j] = DistanceAndIndex::new(distance, j as i64);
                }
                distance_to_index_matrix[i].sort();
                for j in 0..cluster_count as usize {
                    index_matrix[i][j] = distance_to_index_matrix[i][j].index;
                }
            }
            for (i, point) in points.iter().enumerate() {
                let previous = cluster_indices[i] as usize;
                let previous_distance = point_provider.distance(point, &clusters[previous]);
                let mut minimum_distance = previous_distance;
                let mut best: Option<usize> = None;
                for (j, cluster) in clusters.iter().enumerate().take(cluster_count as usize) {
                    if distance_to_index_matrix[previous][j].distance >= 4.0 * previous_distance {
                        continue;
                    }
                    let distance = point_provider.distance(point, cluster);
                    if distance < minimum_distance {
                        minimum_distance = distance;
                        best = Some(j);
                    }
                }
                if let Some(index) = best {
                    points_moved += 1;
                    cluster_indices[i] = index as i64;
                }
            }

''')])
ref('k3', 'P27', [(WS, ('            let mut component_a_sums', '        let mut cluster_argbs'), '''            let mut sums = vec![[0.0f64; 3]; cluster_count as usize];
            pixel_count_sums.iter_mut().for_each(|sum| *sum = 0);
            for ((point, count), cluster_index) in points.iter().zip(&counts).zip(&cluster_indices) {
                let cluster_index = *cluster_index as usize;
                pixel_count_sums[cluster_index] += count;
                for (sum, component) in sums[cluster_index].iter_mut().zip(point) {
                    *sum += component * *count as f64;
                }
            }
            for i in 0..cluster_count as usize {
                let count = pixel_count_sums[i];
                clusters[i] = if count == 0 {
                    vec![0.0; 3]
                } else {
                    sums[i].iter().map(|sum| sum / count as f64).collect()
                };
            }
        }

''')])
ref('k4', 'P27', [(CE, ('        let mut starting_clusters', '        let wsmeans_result'), '''        let starting: std::collections::BTreeSet<i64> =
            wu_result.color_to_count.into_keys().collect();
        let starting_clusters: Vec<i64> = starting.into_iter().collect();
'''), (WS, ('        let mut cluster_argbs: Vec<i64> = vec![];', '        let mut input_pixel_to_cluster_pixel'), '''        let mut color_to_count: HashMap<i64, i64> = HashMap::new();
        for i in 0..cluster_count as usize {
            let count = pixel_count_sums[i];
            if count != 0 {
                color_to_count
                    .entry(point_provider.to_int(&clusters[i]))
                    .or_insert(count);
            }
        }

'''), (WS, ('        let color_to_count: HashMap<i64, i64> = cluster_argbs', '        return QuantizerResult'), '')])
ref('h1', 'P13 P12 P33', [(HS, ('        let normalized = rgb_component / 100.0;', '    fn _chromatic'), '''        let normalized = rgb_component / 100.0;
        255.0
            * if normalized > 0.0031308 {
                1.055 * normalized.powf(1.0 / 2.4) - 0.055
            } else {
                12.92 * normalized
            }
    }

'''), (HS, '        return MathUtils::signum(component) as f64 * 400.0 * af / (af + 27.13);', '        let magnitude = 400.0 * af / (af + 27.13);\n        return if component == 0.0 { 0.0 } else { magnitude.copysign(component) };'),
(HS, ('        return [\n            source[0] + (target[0]', '    /// Intersects a segment'), '''        source.iter().zip(target).map(|(s, e)| s + (e - s) * t).collect()
    }

'''), (HS, '        return 0.0 <= x && x <= 100.0;', '        (0.0..=100.0).contains(&x)')])
ref('h2', 'P13', [(HS, ('        let k_r = Self::_y_from_linrgb()[0];\n        let k_g = Self::_y_from_linrgb()[1];\n        let k_b = Self::_y_from_linrgb()[2];\n        let coord_a', '    /// Finds the segment containing'), '''        let k = Self::_y_from_linrgb();
        let coord_a = if n % 4 < 2 { 0.0 } else { 100.0 };
        let coord_b = (n % 2) as f64 * 100.0;
        let vertex = match n / 4 {
            0 => {
                let r = (y - coord_a * k[1] - coord_b * k[2]) / k[0];
                Some(vec![r, coord_a, coord_b]).filter(|v| Self::_is_bounded(v[0]))
            }
            1 => {
                let g = (y - coord_b * k[0] - coord_a * k[2]) / k[1];
                Some(vec![coord_b, g, coord_a]).filter(|v| Self::_is_bounded(v[1]))
            }
            _ => {
                let b = (y - coord_a * k[0] - coord_b * k[1]) / k[2];
                Some(vec![coord_a, coord_b, b]).filter(|v| Self::_is_bounded(v[2]))
            }
        };
        vertex.unwrap_or_else(|| vec![-1.0; 3])
    }

'''), (HS, ('        return [\n            (a[0] + b[0]) / 2.0', '    fn _critical_plane_below'), '''        Self::_lerp_point(a, 0.5, b)
    }

'''), (HS, 'let m_plane = ((l_plane + r_plane) as f64 / 2.0).floor() as i64;', 'let m_plane = (l_plane + r_plane) >> 1;')])
ref('h3', 'P13', [(HS, ('        let mut left = vec![-1.0, -1.0, -1.0];', '    fn _midpoint'), '''        let vertices: Vec<(Vec<f64>, f64)> = (0..12)
            .map(|n| Self::_nth_vertex(y, n))
            .filter(|vertex| vertex[0] >= 0.0)
            .map(|vertex| {
                let hue = Self::_hue_of(&vertex);
                (vertex, hue)
            })
            .collect();
        let mut left = (vec![-1.0; 3], 0.0);
        let mut right = left.clone();
        for (index, mid) in vertices.into_iter().enumerate() {
            if index == 0 {
                left = mid.clone();
                right = mid;
            } else if index == 1 || Self::_are_in_cyclic_order(left.1, mid.1, right.1) {
                if Self::_are_in_cyclic_order(left.1, target_hue, mid.1) {
                    right = mid;
                } else {
                    left = mid;
                }
            }
        }
        vec![left.0, right.0]
    }

''')])
ref('h4', 'P13 P12', [(HS, ('            let linrgb = MathUtils::matrix_multiply(\n                [r_cscaled', '            // Iterates with Newton'), '''            let scaled = vec![r_cscaled, g_cscaled, b_cscaled];
            let matrix = Self::_LINRGB_FROM_SCALED_DISCOUNT.map(|row| row.to_vec()).to_vec();
            let linrgb = MathUtils::matrix_multiply(scaled, matrix);
            if linrgb.iter().any(|c| *c < 0.0) {
                break;
            }
            let fnj: f64 = Self::_y_from_linrgb().iter().zip(&linrgb).map(|(k, c)| k * c).sum();
            if fnj <= 0.0 {
                break;
            }
            let converged = (fnj - y).abs() < 0.002;
            if converged || iteration_round >= 4 {
                let in_gamut = linrgb.iter().all(|c| *c <= 100.01);
                return if in_gamut { ColorUtils::argb_from_linrgb(linrgb) } else { 0 };
            }
'''), (HS, ('        let exact_answer = Self::_find', '    /// Finds a CAM16 object'), '''        match Self::_find_result_by_j(hue_radians, chroma, y) {
            0 => ColorUtils::argb_from_linrgb(Self::_bisect_to_limit(y, hue_radians)),
            answer => answer,
        }
    }

'''), (HS, 'let hue_radians = hue_degrees / 180.0 * std::f64::consts::PI;', 'let hue_radians = hue_degrees.to_radians();')])
ref('h5', 'P13', [(HS, ('                #[allow(unused_assignments)]\n                let mut l_plane', '        return Self::_midpoint'), '''                let (start, end) = (
                    Self::_true_delinearized(left[axis]),
                    Self::_true_delinearized(right[axis]),
                );
                let (mut l_plane, mut r_plane) = if left[axis] < right[axis] {
                    (Self::_critical_plane_below(start), Self::_critical_plane_above(end))
                } else {
                    (Self::_critical_plane_above(start), Self::_critical_plane_below(end))
                };
                let planes = Self::_critical_planes();
                let mut steps = 0;
                while steps < 8 && (r_plane - l_plane).abs() > 1 {
                    steps += 1;
                    let m_plane = (l_plane + r_plane) / 2;
                    let mid = Self::_set_coordinate(&left, planes[m_plane as usize], &right, axis as i64);
                    let mid_hue = Self::_hue_of(&mid);
                    if Self::_are_in_cyclic_order(left_hue, target_hue, mid_hue) {
                        right = mid;
                        r_plane = m_plane;
                    } else {
                        left = mid;
                        left_hue = mid_hue;
                        l_plane = m_plane;
                    }
                }
            }
        }
''')])
