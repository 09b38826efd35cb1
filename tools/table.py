prop('P01', 'ARGB packing and channel extraction are exact inverses',
     'Building a colour from red, green and blue always yields an opaque 32-bit 0xFFRRGGBB value holding the low eight bits of each component in that order. Reading alpha, red, green or blue returns exactly the corresponding byte for every 32-bit colour, and the opacity test is true exactly when the alpha byte is 255. Packing followed by extraction, and extraction followed by packing of an opaque colour, are identities.',
     'all component integers, all 32-bit ARGB values', 'the tests pack and unpack a handful of constants; the law is over 2^24 colours and out-of-range components', [U],
     [('argb_from_rgb and the *_from_argb extractors', U)])
prop('P03', 'sRGB transfer function: formula, rounding, clamping, exact inversion',
     'Channel-to-linear conversion follows the sRGB transfer function scaled to 0..100; linear-to-channel follows its inverse, rounds to the nearest integer and is clamped to 0..255 for every finite input. The two are exact inverses on all 256 channel values, strictly increasing, and applied channel by channel to triples.',
     'all 256 channel values; all finite linear values', 'tests sample three values per function', [U], [('linearized, delinearized, argb_from_linrgb', U)])
prop('P04', 'L* and luminance Y conversions follow CIE 1976 and invert each other',
     'Tone (L*) to luminance and luminance to tone follow the CIE 1976 definition on both sides of the linear/cubic break, and are inverse to each other on 0..100. The tone of an ARGB colour is the tone of its luminance, and the grey of a given tone has three equal channels encoding that luminance.',
     'all tones, luminances and ARGB colours', 'tests sample integer tones', [U], [('y_from_lstar, lstar_from_y, lstar_from_argb, argb_from_lstar, _lab_f, _lab_invf', U)])
prop('P05', 'XYZ and L*a*b* conversions agree with the sRGB/D65 definitions',
     'Conversions between ARGB and XYZ, and between ARGB and CIE L*a*b*, follow the sRGB primaries, D65 white point and CIE formulas in both directions, and the two conversion matrices are mutually inverse. The Lab points used for clustering are these Lab values and their distance is the squared Euclidean distance.',
     'all ARGB colours, all XYZ and Lab triples', 'tests check red, green and blue corner values only', [U, 'src/quantize/src/point_provider_lab.rs'], [('argb_from_xyz, xyz_from_argb, argb_from_lab, lab_from_argb', U), ('PointProviderLab', 'src/quantize/src/point_provider_lab.rs')])
prop('P06', 'Angle arithmetic wraps modulo 360 and takes the shorter arc',
     'Reducing any angle to degrees yields the value congruent modulo 360 in the range from 0 to 360 (integers: 0..359). The difference of two hues is the symmetric shorter-arc distance in 0..180, and the rotation direction is +1 exactly when going upward from the first to the second angle is at most half a turn, otherwise -1.',
     'all finite angles', 'tests compare a grid of 15 degree steps', ['src/utils/math_utils.rs'], [('sanitize_degrees_*, difference_degrees, rotation_direction', 'src/utils/math_utils.rs')])
prop('P07', 'Clamp, lerp, sign and matrix product are mathematically correct',
     'The clamping helpers return the input limited to the given bounds, linear interpolation returns start plus the requested fraction of the distance, the sign helper returns -1, 0 or 1, and the matrix product multiplies a 3-vector by the rows of a 3x3 matrix.',
     'all finite arguments (bounds ordered)', 'barely tested directly', ['src/utils/math_utils.rs'], [('signum, lerp, clamp_*, matrix_multiply', 'src/utils/math_utils.rs')])
prop('P08', 'Hex formatting and parsing round-trip every colour, and parsing is total',
     'Formatting any ARGB colour gives exactly six upper-case hex digits RRGGBB, with a leading # unless suppressed; parsing such text, with or without # and in either case, returns that 24-bit value. Text that is not a hexadecimal number yields no colour, and no text makes parsing panic.',
     'all colours, all strings', 'no test covers formatting or parsing edge cases', ['src/utils/string_utils.rs'], [('hex_from_argb, argb_from_hex', 'src/utils/string_utils.rs')])
prop('P10', 'CAM16 forward model computes the standard appearance correlates',
     'For every colour and every viewing condition, hue, lightness, chroma, brightness, colorfulness, saturation and the three uniform-space coordinates are those of the CAM16 model; a colour given as ARGB is measured through its XYZ, and the default viewing conditions apply when none are named. The distance of two appearances is the CAM16-UCS distance of their uniform coordinates.',
     'all XYZ triples, ARGB colours and viewing conditions', 'tests check six colours in one viewing condition', ['src/hct/cam16.rs'], [('from_int*, from_xyz_in_viewing_conditions, distance', 'src/hct/cam16.rs')])
prop('P11', 'CAM16 inverse model and alternative constructions are consistent',
     'Appearances built from lightness/chroma/hue or from uniform-space coordinates carry the correlates the CAM16 definitions imply, in any viewing conditions and by default in the standard ones. Converting an appearance back to XYZ or ARGB is the inverse CAM16 model evaluated in the requested viewing conditions.',
     'all appearances and viewing conditions', 'tests only round-trip in the default conditions', ['src/hct/cam16.rs'], [('from_jch*, from_ucs*, viewed, to_int, xyz_in_viewing_conditions', 'src/hct/cam16.rs')])
prop('P12', 'An HCT object always reports the hue, chroma and tone of its colour',
     'However an HCT colour is created or modified, the hue, chroma and tone it reports are those measured from the ARGB value it reports. Setting one of hue, chroma or tone re-solves for the new value with the other two kept as currently reported, and viewing it under other conditions re-measures the colour it turns into. Its text gives hue, chroma and tone rounded to whole numbers.',
     'all ARGB values, all requested hue/chroma/tone triples, all sequences of constructions and mutations', 'tests mutate a few colours once', ['src/hct/hct.rs', 'src/hct/src/hct_solver.rs'], [('Hct::new/from/from_int, set_*, in_viewing_conditions', 'src/hct/hct.rs'), ('solve_to_cam', 'src/hct/src/hct_solver.rs')], over=('inputs', 'histories'))
prop('P13', 'The HCT solver follows its specified search and boundary cases',
     'A request with practically no chroma, or a tone at black or white, yields the grey of the requested tone. Every other request yields the result of the documented procedure: a bounded Newton iteration for the in-gamut colour, otherwise bisection along the gamut boundary at the requested tone and hue, using the half-channel boundaries of the sRGB encoding.',
     'all hues, chromas and tones', 'tests sample a coarse hue/chroma/tone grid', ['src/hct/src/hct_solver.rs'], [('solve_to_int, find_result_by_j, bisect_to_limit, critical planes table', 'src/hct/src/hct_solver.rs')])
prop('P14', 'Contrast ratios and contrasting tones are correct and stay in range',
     'The contrast of two tones is the WCAG ratio of their luminances, symmetric, between 1 and 21, with tones clamped to 0..100. The lighter and darker tone searches return a tone in 0..100 that reaches the requested ratio (with the documented 0.4 gamut margin) or -1 when the ratio is unreachable or the tone is out of range; the unsafe forms return 100 and 0 instead of -1.',
     'all tones and ratios', 'tests check isolated impossible and possible ratios', ['src/contrast/contrast.rs'], [('ratio_of_tones, lighter*, darker*', 'src/contrast/contrast.rs')])
prop('P15', 'Contrast curves interpolate piecewise linearly between four levels',
     'A contrast curve returns its low, normal, medium and high values at levels -1, 0, 0.5 and 1, is linear in between, and is constant outside -1..1.',
     'all levels and all curve values', 'not tested directly', ['src/dynamiccolor/src/contrast_curve.rs'], [('ContrastCurve::get', 'src/dynamiccolor/src/contrast_curve.rs')])
prop('P17', 'Every colour role follows the Material design table',
     'Each of the 54 colour roles of a dynamic scheme has the palette, tone in light and dark mode and in every scheme variant, contrast requirement, background(s), background flag and tone-pair constraint of the Material 3 role table, for schemes over arbitrary palettes, source colours, modes and contrast levels.',
     'all schemes: every variant, mode, contrast level, source colour and set of palettes; all 54 roles', 'tests evaluate a few roles for a few source colours', ['src/dynamiccolor/material_dynamic_colors.rs'], [('the role constructors', 'src/dynamiccolor/material_dynamic_colors.rs')], over=('inputs', 'configurations'),
     note='Chroma-search loops are unrolled a bounded number of times. ')
prop('P19', 'Dynamic colour tones honour background contrast and pair constraints',
     'The tone of a dynamic colour without background is its own tone; with one background it is kept if it reaches the wanted contrast, else replaced by the best contrasting tone, always so below normal contrast; with two backgrounds it must contrast with both. Members of a tone pair keep the requested order and distance and contrast with the background, and background colours never end in the 50..60 band unless they must.',
     'all tones, contrast curves, contrast levels, pair distances, polarities and modes', 'tests evaluate fixed roles for a few source colours and four contrast levels', ['src/dynamiccolor/dynamic_color.rs'], [('get_tone, foreground_tone, tone_prefers_light_foreground', 'src/dynamiccolor/dynamic_color.rs')], over=('inputs', 'configurations'))
prop('P30', 'Blending moves hue the short way and preserves what it promises',
     'Harmonizing rotates the design colour\'s hue toward the source by half the hue difference but at most 15 degrees, the shorter way, keeping its chroma and tone. Blending in the uniform space is linear in all three coordinates, and blending hue takes the hue of that blend with the original chroma and tone.',
     'all colour pairs and amounts', 'tests cover the primaries only', ['src/blend/blend.rs'], [('harmonize, hct_hue, cam16_ucs', 'src/blend/blend.rs')])
prop('P31', 'Disliked colours are recognised and fixed exactly when disliked',
     'A colour is disliked exactly when its rounded hue is in 90..111, its rounded chroma is above 16 and its rounded tone below 65. Fixing moves precisely the disliked colours to tone 70 with hue and chroma kept, and returns every other colour unchanged.',
     'all colours', 'tests check a dozen colours', ['src/dislike/dislike_analyzer.rs'], [('is_disliked, fix_if_disliked', 'src/dislike/dislike_analyzer.rs')])
prop('P35', 'Viewing conditions derive all CAM16 factors from their parameters',
     'For any white point, adapting luminance, background, surround and discounting choice, all derived CAM16 factors are those of the model; omitted parameters take the documented defaults, and the two named standard conditions are these defaults.',
     'all parameter combinations', 'only the defaults are exercised', ['src/hct/viewing_conditions.rs'], [('ViewingConditions::make, s_rgb, standard', 'src/hct/viewing_conditions.rs')])

prop('P18', 'Every role resolves, without panic, to its palette at its tone',
     'For any scheme and any of its colour roles, the scheme getter, the scheme lookup and the role itself all return the same colour: the role\'s palette at the role\'s resolved tone, both as ARGB and as HCT. Resolution always terminates with a colour and never panics, and role names are distinct.',
     'all schemes and all roles', 'tests evaluate a few roles for a few source colours', ['src/dynamiccolor/dynamic_scheme.rs', 'src/dynamiccolor/dynamic_color.rs'], [('DynamicScheme getters, get_argb, get_hct', 'src/dynamiccolor/dynamic_scheme.rs'), ('DynamicColor::get_argb, get_hct', 'src/dynamiccolor/dynamic_color.rs')], over=('inputs', 'configurations'),
     note='Quick tier: four variants for every role; thorough: all nine. ')
prop('P20', 'A dynamic colour\'s answer never depends on earlier queries',
     'A dynamic colour asked for a scheme gives what a fresh one would give, whatever schemes it was asked for before: schemes that differ in any component (source, variant, mode, contrast level, any palette\'s hue, chroma or key colour) never share a cached answer, and palettes used beforehand give the same colours as unused ones.',
     'all sequences of queries over schemes differing in any component', 'tests never reuse a dynamic colour across similar schemes', ['src/dynamiccolor/dynamic_color.rs', 'src/dynamiccolor/dynamic_scheme.rs'], [('DynamicColor::get_hct cache', 'src/dynamiccolor/dynamic_color.rs'), ('DynamicScheme Eq/Hash', 'src/dynamiccolor/dynamic_scheme.rs')], over=('inputs', 'histories'))
prop('P21', 'Equality, hashing and ordering obey their laws',
     'Equality of HCT colours, tonal palettes, core palettes, dynamic schemes and variants is reflexive and symmetric, and transitive among values built the same way; equal values feed the same data to a hasher. HCT colours are equal exactly when their ARGB values are, and schemes exactly when source, variant, mode, contrast level and palettes are. Cluster distances have one total order, by distance, consistent with their partial order and equality.',
     'all pairs and triples of values', 'tests compare identical objects only', ['src/palettes/tonal_palette.rs', 'src/dynamiccolor/dynamic_scheme.rs', 'src/hct/hct.rs', 'src/quantize/quantizer_wsmeans.rs'], [('PartialEq/Hash impls', 'src/palettes/tonal_palette.rs'), ('PartialEq/Hash impls', 'src/dynamiccolor/dynamic_scheme.rs'), ('DistanceAndIndex ordering', 'src/quantize/quantizer_wsmeans.rs')])
prop('P22', 'A tonal palette answers by hue, chroma and tone, whatever came before',
     'A palette of a hue and chroma answers every tone, as ARGB or HCT and fractional or not, with that hue and chroma at that tone, independent of earlier look-ups. A palette from a list of the common tones gives those colours back and deduces its hue and chroma from its most colourful colour not close to white. The list form and the text form describe the palette; the key colour is the first tone from 50 outwards matching the rounded chroma, else the closest.',
     'all hues, chromas, tones, colour lists and sequences of look-ups', 'tests look up fixed tones once', ['src/palettes/tonal_palette.rs'], [('TonalPalette::of/from_hct/from_list, get, get_hct, as_list, create_key_color', 'src/palettes/tonal_palette.rs')], over=('inputs', 'histories'))
prop('P23', 'Core palettes derive from the source colour and survive their list form',
     'The six core palettes of a colour, and its content variant, have the hues and chromas the Material definition derives from the source colour. The list form holds the common tones of the five key palettes in order, and a core palette rebuilt from a list gives the listed colours back with the fixed error palette. Its text lists the six palettes under their names.',
     'all source colours and all colour lists', 'tests check one blue source colour', ['src/palettes/core_palette.rs'], [('CorePalette::of/content_of/from_list/as_list', 'src/palettes/core_palette.rs')])
prop('P24', 'The nine scheme variants build the palettes their design prescribes',
     'Each scheme constructor keeps the source colour, mode and contrast level, sets its own variant and derives the hue and chroma of its five palettes from the source colour as its design prescribes, including hue rotation by table, disliked-colour fixing and temperature-based tertiary colours; the error palette is always hue 25, chroma 84. Rotating a hue by a table applies the rotation of the interval the hue lies in.',
     'all source colours, modes and contrast levels; all rotation tables', 'tests check palettes of a few variants for one colour', ['src/scheme/', 'src/dynamiccolor/dynamic_scheme.rs'], [('Scheme*::new', 'src/scheme/'), ('DynamicScheme::new, get_rotated_hue', 'src/dynamiccolor/dynamic_scheme.rs')], over=('inputs', 'configurations'))
prop('P25', 'Fixed light and dark schemes follow the Material tone table',
     'Each of the 29 colours of the fixed light and dark schemes, from a colour, from a colour\'s content palettes or from given core palettes, is the table\'s tone of the table\'s palette.',
     'all source colours and core palettes', 'not tested', ['src/scheme/scheme.rs'], [('Scheme::light*, dark*', 'src/scheme/scheme.rs')])
prop('P28', 'Scoring ranks and spaces theme colours by the documented rule',
     'Score weighs every colour by the share of the population whose hue lies within the 30-degree window around it (70 points per unit share) plus its chroma against 48 (0.3 per unit above, 0.1 below); with filtering, colours of chroma below 5 or share of at most 1% are dropped. Colours are taken from the highest score down, at the widest hue spacing from 90 down to 15 degrees that yields the desired number, at most `desired` of them, all from the input; when none qualifies the fallback (default Google blue) is the only result. Equal scores are ordered by colour value, so the result depends only on the contents of the map, never on the order in which it is visited.',
     'all populations, chromas and hues of maps of up to three colours in chosen hue cells, five-colour maps at fixed hues, desired counts 1-6, both orders of visiting the map; other maps by the same code', 'tests use a dozen concrete maps; ties, window edges, wrap-around at 0/360 and hash order are not sampled',
     ['src/score/score.rs'], [('Score::score', 'src/score/score.rs'), ('_ScoredHCT ordering', 'src/score/score.rs')], over=('inputs', 'histories'),
     note='Hue is taken in half-degree cells around the edges of the 30-degree window and of the spacing rule; share and chroma are unknowns.')
prop('P29', 'Temperature: complement, analogous and relative temperature follow the wheel',
     'Raw temperature is the Ou-Woodcock-Wright formula of the colour\'s L*a*b* values. The wheel of a temperature cache has one colour for every whole hue 0 to 360 at the input\'s chroma and tone; ordered with the input from coldest to warmest it gives the coldest and warmest colours and relative temperatures 0 to 1 (0.5 when there is no spread). The complement is the wheel colour on the far side whose relative temperature is nearest to one minus the input\'s; analogous colours are equidistant in temperature around the wheel, the requested number of them including the input, repeating when there are fewer divisions. Nothing panics for any hue (including those that round to 360) and every answer is the same whatever was asked of the cache before.',
     'raw temperature and the angle test: all inputs; wheel queries: every offset and scale of temperature over five temperature profiles (smooth, wrapping through 0, stepped with ties, repeated colours, a single colour), inputs of fourteen hues/temperatures, ten count/division pairs, five prior queries', 'tests use four blues; ties, a wheel without spread, hues rounding to 360, wrap-around and query order are not sampled',
     ['src/temperature/temperature_cache.rs'], [('TemperatureCache', 'src/temperature/temperature_cache.rs')], over=('inputs', 'histories'),
     state=['_hcts_by_temp', '_hcts_by_hue', '_temps_by_hct', '_input_relative_temperature', '_complement'])
prop('P26', 'Map counts exactly; Wu cuts and averages colour boxes by its algorithm',
     'The map quantizer returns exactly the opaque input colours with the number of times each occurs and ignores every other pixel. The Wu quantizer bins colours into a 32-cubed histogram, accumulates it into cumulative moments from which the sums of any box are read by inclusion and exclusion, repeatedly cuts the box of largest variance at the place where the between-halves variance is largest (red first on ties, stopping when no box has variance left, and never losing or overwriting a box when one cannot be cut), and returns at most max_colors opaque colours: the mean of each non-empty box rounded to nearest, with count 0. Sums never overflow, however large the image, and the result does not depend on the order of the pixels or of any hash map.',
     'counting: all lists of up to 3 pixels; histogram, cumulative moments, box sums, variance, cut placement and choice, means: all counts, sums, gains and variances on chosen boxes and up to 4 boxes; whole algorithm: eight images, both visiting orders of every map', 'tests quantize four tiny images; counts, boxes that cannot be cut, ties, rounding and large populations are not sampled',
     ['src/quantize/quantizer_map.rs', 'src/quantize/quantizer_wu.rs'], [('QuantizerMap::quantize', 'src/quantize/quantizer_map.rs'), ('QuantizerWu', 'src/quantize/quantizer_wu.rs')], over=('inputs', 'histories'),
     state=['weights', 'moments_r', 'moments_g', 'moments_b', 'moments', 'cubes'])
prop('P27', 'Celebi: k-means seeded by Wu, a function of the image alone',
     'K-means works on the distinct pixels weighted by how often each occurs, in L*a*b* with squared distances; it starts from the given colours plus, if fewer than needed, pixels of the image drawn by a generator of fixed seed; in every round a colour moves only to a strictly nearer mean, means are recomputed as weighted averages, and it stops when nothing moves or after max_iterations (default 5) rounds. It returns at most max_colors colours, each the opaque colour of a non-empty cluster with the population of that cluster, a colour of several clusters being reported once; when asked, also the colour of its cluster for every input pixel. Celebi is k-means over all pixels seeded with Wu\'s colours in ascending order. Equal inputs give equal results: nothing depends on hash order, time or unseeded randomness.',
     'unknown colours within cells around chosen colours (0.001 to 3 units of L*a*b*), 1-10 colours, 1-5 clusters, 0-10 rounds, both visiting orders of every map', 'tests quantize five tiny images in one run; hash order varies between processes, and empty clusters, duplicates, ties, extra seeds and round limits are not sampled',
     ['src/quantize/quantizer_wsmeans.rs', 'src/quantize/quantizer_celebi.rs', 'src/quantize/src/point_provider_lab.rs'], [('QuantizerWsmeans::quantize', 'src/quantize/quantizer_wsmeans.rs'), ('QuantizerCelebi::quantize', 'src/quantize/quantizer_celebi.rs'), ('PointProviderLab', 'src/quantize/src/point_provider_lab.rs')], over=('inputs', 'histories'),
     note='The generator is a stand-in (a fixed function of seed and position). The distance bound used to skip clusters is the reference implementation\'s, which may keep a colour away from its nearest mean.')
prop('P02', 'Every computed colour is opaque and a valid 32-bit ARGB value',
     'Every colour the library computes - from components, linear RGB, XYZ, L*a*b*, a tone, an appearance in any viewing conditions, a hue/chroma/tone request, a palette, core palette, fixed or dynamic scheme role, a blend, a fixed disliked colour, a quantized cluster or the scoring fallback - is in 0xFF000000..0xFFFFFFFF: fully opaque, nothing outside 32 bits, whatever the input, including out-of-range numbers and translucent source colours.',
     'all integers for packing, all finite numbers for conversions (to 1e6), all source colours, modes, contrast levels and palettes', 'tests compare a few colours; nothing checks the alpha byte of the rest', [U, 'src/hct/', 'src/palettes/', 'src/scheme/', 'src/blend/blend.rs', 'src/quantize/'],
     [('ColorUtils::argb_from_*', U), ('HctSolver::solve_to_int', 'src/hct/src/hct_solver.rs'), ('DynamicScheme::get_*', 'src/dynamiccolor/dynamic_scheme.rs')],
     tech='interval analysis with gate splitting over the value graphs of MIR; lower layers enter by ranges established in the same check')
prop('P32', 'Results depend on arguments only: no ambient state, clock or output',
     'No function of the crate reads or writes the environment, files, network, processes, threads or standard streams, draws unseeded randomness, looks at addresses or at the per-process hash seed, or keeps mutable process-wide or thread-local state; clock readings never reach a result or a decision. The same call with the same arguments therefore gives the same answer in every process, thread and order of calls.',
     'all call sites of all functions and closures of the crate', 'no test can show the absence of an effect', ['src/'], [('every function', 'src/'), ('Stopwatch, debug_log', 'src/quantize/quantizer_wsmeans.rs')], over=('inputs', 'histories'),
     tech='effect analysis over the MIR call graph (call sites, statics, address casts) and taint flow of clock readings', note='Effects inside std functions that are not named in the rule are not followed; the order of hash map iteration is judged by P26, P27 and P28.')
prop('P33', 'No public operation panics on any colour or finite number',
     'Conversions, appearance model, solver, HCT construction and mutation, contrast, palettes, core palettes, scheme constructors, every role of every scheme, blending, dislike analysis and text output return normally for every 32-bit colour, every integer and every finite floating-point argument in range: no index is out of bounds, no unwrap fails, no integer overflows, nothing divides by zero. The same holds for quantizing into at least one colour, scoring at least one colour, and everything asked of the temperature cache for at least one colour and division.',
     'all 32-bit colours, all 64-bit integers where any integer is accepted, finite floats up to 1e12', 'panics hide behind inputs no test uses', ['src/'], [('all public entry points', 'src/')],
     tech='abstract interpretation of MIR collecting the path condition of every panic site; refutation by interval and gate reasoning', note='Quantizers, scoring and temperature are covered on the scenarios of P26 to P29, whose arithmetic is symbolic but whose sizes are not; hex parsing is judged by P08.')
prop('P16', 'The colour found for a hue, chroma and tone is close to what was asked',
     'For every hue, chroma and tone, the colour the solver returns has the requested tone to within half a unit, the requested hue to within a few degrees when it is chromatic, and the requested chroma whenever that chroma is displayable, otherwise the largest displayable chroma.',
     'all hues, chromas and tones', 'tests sample a grid', ['src/hct/src/hct_solver.rs'], [('HctSolver::solve_to_int', 'src/hct/src/hct_solver.rs')], claimed=False,
     reason='Needs convergence bounds of a five-step Newton iteration and of a gamut-boundary bisection through fractional powers, plus 8-bit rounding: no sound static enclosure in reach is tight enough (interval analysis of the value graph gives the whole tone range). P13 decides that the search performed is the specified one.')
prop('P34', 'Rendered role pairs reach the contrast their curves promise',
     'For every source colour, variant, mode and contrast level, the rendered colours of a role and its background have at least the contrast ratio of the role\'s contrast curve at that level, as far as the tone range allows.',
     'all schemes', 'tests check a few schemes', ['src/dynamiccolor/'], [('DynamicColor::get_argb', 'src/dynamiccolor/dynamic_color.rs')], claimed=False,
     reason='The rendered contrast depends on the accuracy of the solver (P16), which is not statically bounded; P14, P17 and P19 decide that the tones themselves follow the contrast rules.')
