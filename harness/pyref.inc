OV(vec2, optimal_interpolation, (g, m, p, v, v, v, s, i, b)) OV(vec, optimal_interpolation, (p, v, p, v, v, v, s, i, b))
OV(vec2, optimal_interpolation_full, (g, m, m, p, v, v, v, v, s, i, om, b)) OV(vec, optimal_interpolation_full, (p, v, v, p, v, v, v, v, s, i, ov, b))
OV(vec3, optimal_interpolation_ensi, (g, t, p, v, v, m, s, i, b)) OV(vec2, optimal_interpolation_ensi, (p, m, p, v, v, m, s, i, b))
OV(vec3, optimal_interpolation_ensi_multi_ebesc, (g, m, t, p, m, v, m, s, i, b)) OV(vec2, optimal_interpolation_ensi_multi_utem, (p, v, m, m, p, v, v, m, m, s, i, b))
OV(vec2, local_distribution_correction, (g, m, p, v, v, s, f, f, i)) OV(vec2, local_distribution_correction, (g, m, p, m, m, s, f, f, i))
OV(vec2, fill, (g, m, p, v, f, b)) OV(vec2, doping_square, (g, m, p, v, iv, f)) OV(vec2, doping_circle, (g, m, p, v, v, f)) OV(vec, gamma_inv, (v, v, v))
OV(vec2, neighbourhood, (m, i, st)) OV(vec2, neighbourhood, (t, i, st)) OV(vec2, neighbourhood_quantile, (m, f, i)) OV(vec2, neighbourhood_quantile, (t, f, i))
OV(vec2, neighbourhood_quantile_fast, (m, f, i, v)) OV(vec2, neighbourhood_quantile_fast, (t, f, i, v)) OV(vec2, neighbourhood_quantile_fast, (m, m, i, v)) OV(vec2, neighbourhood_quantile_fast, (t, m, i, v))
OV(vec2, neighbourhood_brute_force, (m, i, st)) OV(vec2, neighbourhood_brute_force, (t, i, st)) OV(vec, get_neighbourhood_thresholds, (m, i)) OV(vec, get_neighbourhood_thresholds, (t, i))
OV(vec2, calc_gradient, (m, m, gt, i, i, f, f)) OV(vec2, neighbourhood_search, (m, m, i, f, f, f, im)) OV(vec, quantile_mapping_curve, (v, v, ov, vec)) OV(vec, metric_optimizer_curve, (v, v, v, me, ov))
OV(float, apply_curve, (f, v, v, ex, ex)) OV(vec, apply_curve, (v, v, v, ex, ex)) OV(vec2, apply_curve, (m, v, v, ex, ex)) OV(vec2, apply_curve, (m, t, t, ex, ex)) OV(vec, monotonize_curve, (vec, vec, ov))
OV(float, get_optimal_threshold, (v, v, f, me)) OV(float, calc_score, (f, f, f, f, me)) OV(float, calc_score, (v, v, f, me)) OV(float, calc_score, (v, v, f, f, me))
OV(vec2, downscaling, (g, g, m, ds)) OV(vec3, downscaling, (g, g, t, ds)) OV(vec, downscaling, (g, p, m, ds)) OV(vec2, downscaling, (g, p, t, ds))
OV(vec2, nearest, (g, g, m)) OV(vec3, nearest, (g, g, t)) OV(vec, nearest, (g, p, m)) OV(vec2, nearest, (g, p, t)) OV(vec, nearest, (p, p, v)) OV(vec2, nearest, (p, p, m)) OV(vec2, nearest, (p, g, v)) OV(vec3, nearest, (p, g, m))
OV(vec2, downscale_probability, (g, g, t, m, co)) OV(vec2, mask_threshold_downscale_consensus, (g, g, t, t, t, m, co, cst)) OV(vec2, mask_threshold_downscale_quantile, (g, g, t, t, t, m, co, f))
OV(vec2, bilinear, (g, g, m)) OV(vec3, bilinear, (g, g, t)) OV(vec, bilinear, (g, p, m)) OV(vec2, bilinear, (g, p, t))
OV(vec2, simple_gradient, (g, g, m, f, ds)) OV(vec3, simple_gradient, (g, g, t, f, ds)) OV(vec, simple_gradient, (g, p, m, f, ds)) OV(vec2, simple_gradient, (g, p, t, f, ds))
OV(vec2, full_gradient, (g, g, m, m, m, ds)) OV(vec3, full_gradient, (g, g, t, t, t, ds)) OV(vec, full_gradient, (g, p, m, m, m, ds)) OV(vec2, full_gradient, (g, p, t, t, t, ds)) OV(vec3, full_gradient_debug, (g, g, m, m, m, ds))
OV(vec2, smart, (g, g, m, i, s)) OV(vec, count, (g, p, f)) OV(vec2, count, (g, g, f)) OV(vec2, count, (p, g, f)) OV(vec, count, (p, p, f)) OV(vec, distance, (g, p, i)) OV(vec2, distance, (g, g, i)) OV(vec2, distance, (p, g, i)) OV(vec, distance, (p, p, i))
OV(vec2, fill_missing, (m)) OV(vec2, gridding, (g, p, v, f, i, st)) OV(vec, gridding, (p, p, v, f, i, st)) OV(vec2, gridding_nearest, (g, p, v, i, st)) OV(vec, gridding_nearest, (p, p, v, i, st))
OV(vec2, neighbourhood_score, (g, p, m, v, i, me, f)) OV(float, dewpoint, (f, f)) OV(vec, dewpoint, (v, v)) OV(float, pressure, (f, f, f, f)) OV(vec, pressure, (v, v, v, v)) OV(float, sea_level_pressure, (f, f, f, f, f)) OV(vec, sea_level_pressure, (v, v, v, v, v))
OV(float, qnh, (f, f)) OV(vec, qnh, (v, v)) OV(float, relative_humidity, (f, f)) OV(vec, relative_humidity, (v, v)) OV(float, wetbulb, (f, f, f)) OV(vec, wetbulb, (v, v, v))
OV(float, wind_speed, (f, f)) OV(vec, wind_speed, (v, v)) OV(float, wind_direction, (f, f)) OV(vec, wind_direction, (v, v)) OV(bool, is_valid, (f)) OV(float, calc_statistic, (v, st)) OV(vec, calc_statistic, (m, st))
OV(float, calc_quantile, (v, f)) OV(vec, calc_quantile, (m, f)) OV(vec2, calc_quantile, (t, m)) OV(bool, convert_coordinates, (v, v, ct, ov, ov, ov)) OV(bool, convert_coordinates, (f, f, ct, float&, float&, float&))
OV(bool, is_valid_lat, (f, ct)) OV(bool, is_valid_lon, (f, ct)) OV(int, num_missing_values, (m)) OV(int, get_lower_index, (f, v)) OV(int, get_upper_index, (f, v)) OV(float, interpolate, (f, v, v)) OV(vec, interpolate, (v, v, v))
OV(ivec2, init_ivec2, (i, i, i)) OV(vec2, init_vec2, (i, i, f)) OV(ivec3, init_ivec3, (i, i, i, i)) OV(vec3, init_vec3, (i, i, i, f)) OV(vec, calc_even_quantiles, (v, i)) OV(vec2, window, (m, i, st, b, b, b))
OV(bool, compatible_size, (g, m)) OV(bool, compatible_size, (g, t)) OV(bool, compatible_size, (p, v)) OV(bool, compatible_size, (p, m)) OV(bool, compatible_size, (m, m)) OV(bool, compatible_size, (m, t)) OV(bool, compatible_size, (t, t))
OV(bool, compatible_coordinates, (g, g)) OV(bool, compatible_coordinates, (g, p)) OV(bool, compatible_coordinates, (p, p)) OV(bool, point_in_rectangle, (const Point&, const Point&, const Point&, const Point&, const Point&))
OV(float, test_vec_input, (v)) OV(int, test_ivec_input, (iv)) OV(float, test_vec2_input, (m)) OV(float, test_vec3_input, (t)) OV(float, test_vec_argout, (ov)) OV(float, test_vec2_argout, (om))
OV(vec, test_vec_output, ()) OV(ivec, test_ivec_output, ()) OV(vec2, test_vec2_output, ()) OV(ivec2, test_ivec2_output, ()) OV(vec3, test_vec3_output, ()) OV(ivec3, test_ivec3_output, ())
