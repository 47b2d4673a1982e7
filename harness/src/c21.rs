//! C21: the C interface does what the vector operation of the same name does.
pub mod w32 {
    mod f { pub use basic_dsp_interop::facade32::{VecBuf, delete_vector32 as delete_vector, new32 as new, new_with_performance_options32 as new_with_performance_options, new_with_detailed_performance_options32 as new_with_detailed_performance_options, get_value32 as get_value, set_value32 as set_value, is_complex32 as is_complex, get_domain32 as get_domain, get_len32 as get_len, set_len32 as set_len, get_points32 as get_points, get_delta32 as get_delta, data32 as data, complex_data32 as complex_data, get_allocated_len32 as get_allocated_len, add32 as add, sub32 as sub, div32 as div, mul32 as mul, real_dot_product32 as real_dot_product, complex_dot_product32 as complex_dot_product, real_statistics32 as real_statistics, complex_statistics32 as complex_statistics, real_sum32 as real_sum, real_sum_sq32 as real_sum_sq, complex_sum32 as complex_sum, complex_sum_sq32 as complex_sum_sq, real_dot_product_prec32 as real_dot_product_prec, complex_dot_product_prec32 as complex_dot_product_prec, real_statistics_prec32 as real_statistics_prec, complex_statistics_prec32 as complex_statistics_prec, real_sum_prec32 as real_sum_prec, real_sum_sq_prec32 as real_sum_sq_prec, complex_sum_prec32 as complex_sum_prec, complex_sum_sq_prec32 as complex_sum_sq_prec, zero_pad32 as zero_pad, zero_interleave32 as zero_interleave, diff32 as diff, diff_with_start32 as diff_with_start, cum_sum32 as cum_sum, real_offset32 as real_offset, real_scale32 as real_scale, abs32 as abs, sqrt32 as sqrt, square32 as square, root32 as root, powf32 as powf, ln32 as ln, exp32 as exp, log32 as log, expf32 as expf, to_complex32 as to_complex, sin32 as sin, cos32 as cos, tan32 as tan, asin32 as asin, acos32 as acos, atan32 as atan, sinh32 as sinh, cosh32 as cosh, tanh32 as tanh, asinh32 as asinh, acosh32 as acosh, atanh32 as atanh, ln_approx32 as ln_approx, exp_approx32 as exp_approx, sin_approx32 as sin_approx, cos_approx32 as cos_approx, log_approx32 as log_approx, expf_approx32 as expf_approx, powf_approx32 as powf_approx, wrap32 as wrap, unwrap32 as unwrap, swap_halves32 as swap_halves, complex_offset32 as complex_offset, complex_scale32 as complex_scale, complex_divide32 as complex_divide, magnitude32 as magnitude, get_magnitude32 as get_magnitude, get_magnitude_squared32 as get_magnitude_squared, magnitude_squared32 as magnitude_squared, conj32 as conj, to_real32 as to_real, to_imag32 as to_imag, map_inplace_real32 as map_inplace_real, map_inplace_complex32 as map_inplace_complex, map_aggregate_real32 as map_aggregate_real, map_aggregate_complex32 as map_aggregate_complex, get_real32 as get_real, get_imag32 as get_imag, phase32 as phase, get_phase32 as get_phase, plain_fft32 as plain_fft, plain_sfft32 as plain_sfft, plain_ifft32 as plain_ifft, clone32 as clone, multiply_complex_exponential32 as multiply_complex_exponential, add_vector32 as add_vector, sub_vector32 as sub_vector, div_vector32 as div_vector, mul_vector32 as mul_vector, add_smaller_vector32 as add_smaller_vector, sub_smaller_vector32 as sub_smaller_vector, div_smaller_vector32 as div_smaller_vector, mul_smaller_vector32 as mul_smaller_vector, get_real_imag32 as get_real_imag, get_mag_phase32 as get_mag_phase, set_real_imag32 as set_real_imag, set_mag_phase32 as set_mag_phase, split_into32 as split_into, merge32 as merge, overwrite_data32 as overwrite_data, real_statistics_split32 as real_statistics_split, complex_statistics_split32 as complex_statistics_split, real_statistics_split_prec32 as real_statistics_split_prec, complex_statistics_split_prec32 as complex_statistics_split_prec, fft32 as fft, sfft32 as sfft, ifft32 as ifft, plain_sifft32 as plain_sifft, sifft32 as sifft, mirror32 as mirror, apply_window32 as apply_window, unapply_window32 as unapply_window, windowed_fft32 as windowed_fft, windowed_sfft32 as windowed_sfft, windowed_ifft32 as windowed_ifft, windowed_sifft32 as windowed_sifft, apply_custom_window32 as apply_custom_window, unapply_custom_window32 as unapply_custom_window, windowed_custom_fft32 as windowed_custom_fft, windowed_custom_sfft32 as windowed_custom_sfft, windowed_custom_ifft32 as windowed_custom_ifft, windowed_custom_sifft32 as windowed_custom_sifft, reverse32 as reverse, decimatei32 as decimatei, prepare_argument32 as prepare_argument, prepare_argument_padded32 as prepare_argument_padded, correlate32 as correlate, convolve_signal32 as convolve_signal, convolve_real32 as convolve_real, convolve_complex32 as convolve_complex, convolve32 as convolve, multiply_frequency_response_real32 as multiply_frequency_response_real, multiply_frequency_response_complex32 as multiply_frequency_response_complex, multiply_frequency_response32 as multiply_frequency_response, interpolatef_custom32 as interpolatef_custom, interpolatef32 as interpolatef, interpolate_custom32 as interpolate_custom, interpolate32 as interpolate, interpft32 as interpft, interpolatei_custom32 as interpolatei_custom, interpolatei32 as interpolatei, interpolate_lin32 as interpolate_lin, interpolate_hermite32 as interpolate_hermite}; }
    type T = f32; type C = num_complex::Complex32;
    extern "C" { fn fft_shift32(v: Box<f::VecBuf>) -> basic_dsp_interop::VectorInteropResult<f::VecBuf>; fn ifft_shift32(v: Box<f::VecBuf>) -> basic_dsp_interop::VectorInteropResult<f::VecBuf>; }
    use self::{fft_shift32 as fft_shift, ifft_shift32 as ifft_shift};
    include!("c21_body.in");
}
pub mod w64 {
    mod f { pub use basic_dsp_interop::facade64::{VecBuf, delete_vector64 as delete_vector, new64 as new, new_with_performance_options64 as new_with_performance_options, new_with_detailed_performance_options64 as new_with_detailed_performance_options, get_value64 as get_value, set_value64 as set_value, is_complex64 as is_complex, get_domain64 as get_domain, get_len64 as get_len, set_len64 as set_len, get_points64 as get_points, get_delta64 as get_delta, data64 as data, complex_data64 as complex_data, get_allocated_len64 as get_allocated_len, add64 as add, sub64 as sub, div64 as div, mul64 as mul, real_dot_product64 as real_dot_product, complex_dot_product64 as complex_dot_product, real_statistics64 as real_statistics, complex_statistics64 as complex_statistics, real_sum64 as real_sum, real_sum_sq64 as real_sum_sq, complex_sum64 as complex_sum, complex_sum_sq64 as complex_sum_sq, real_dot_product_prec64 as real_dot_product_prec, complex_dot_product_prec64 as complex_dot_product_prec, real_statistics_prec64 as real_statistics_prec, complex_statistics_prec64 as complex_statistics_prec, real_sum_prec64 as real_sum_prec, real_sum_sq_prec64 as real_sum_sq_prec, complex_sum_prec64 as complex_sum_prec, complex_sum_sq_prec64 as complex_sum_sq_prec, zero_pad64 as zero_pad, zero_interleave64 as zero_interleave, diff64 as diff, diff_with_start64 as diff_with_start, cum_sum64 as cum_sum, real_offset64 as real_offset, real_scale64 as real_scale, abs64 as abs, sqrt64 as sqrt, square64 as square, root64 as root, powf64 as powf, ln64 as ln, exp64 as exp, log64 as log, expf64 as expf, to_complex64 as to_complex, sin64 as sin, cos64 as cos, tan64 as tan, asin64 as asin, acos64 as acos, atan64 as atan, sinh64 as sinh, cosh64 as cosh, tanh64 as tanh, asinh64 as asinh, acosh64 as acosh, atanh64 as atanh, ln_approx64 as ln_approx, exp_approx64 as exp_approx, sin_approx64 as sin_approx, cos_approx64 as cos_approx, log_approx64 as log_approx, expf_approx64 as expf_approx, powf_approx64 as powf_approx, wrap64 as wrap, unwrap64 as unwrap, swap_halves64 as swap_halves, complex_offset64 as complex_offset, complex_scale64 as complex_scale, complex_divide64 as complex_divide, magnitude64 as magnitude, get_magnitude64 as get_magnitude, get_magnitude_squared64 as get_magnitude_squared, magnitude_squared64 as magnitude_squared, conj64 as conj, to_real64 as to_real, to_imag64 as to_imag, map_inplace_real64 as map_inplace_real, map_inplace_complex64 as map_inplace_complex, map_aggregate_real64 as map_aggregate_real, map_aggregate_complex64 as map_aggregate_complex, get_real64 as get_real, get_imag64 as get_imag, phase64 as phase, get_phase64 as get_phase, plain_fft64 as plain_fft, plain_sfft64 as plain_sfft, plain_ifft64 as plain_ifft, clone64 as clone, multiply_complex_exponential64 as multiply_complex_exponential, add_vector64 as add_vector, sub_vector64 as sub_vector, div_vector64 as div_vector, mul_vector64 as mul_vector, add_smaller_vector64 as add_smaller_vector, sub_smaller_vector64 as sub_smaller_vector, div_smaller_vector64 as div_smaller_vector, mul_smaller_vector64 as mul_smaller_vector, get_real_imag64 as get_real_imag, get_mag_phase64 as get_mag_phase, set_real_imag64 as set_real_imag, set_mag_phase64 as set_mag_phase, split_into64 as split_into, merge64 as merge, overwrite_data64 as overwrite_data, real_statistics_split64 as real_statistics_split, complex_statistics_split64 as complex_statistics_split, real_statistics_split_prec64 as real_statistics_split_prec, complex_statistics_split_prec64 as complex_statistics_split_prec, fft64 as fft, sfft64 as sfft, ifft64 as ifft, plain_sifft64 as plain_sifft, sifft64 as sifft, mirror64 as mirror, apply_window64 as apply_window, unapply_window64 as unapply_window, windowed_fft64 as windowed_fft, windowed_sfft64 as windowed_sfft, windowed_ifft64 as windowed_ifft, windowed_sifft64 as windowed_sifft, apply_custom_window64 as apply_custom_window, unapply_custom_window64 as unapply_custom_window, windowed_custom_fft64 as windowed_custom_fft, windowed_custom_sfft64 as windowed_custom_sfft, windowed_custom_ifft64 as windowed_custom_ifft, windowed_custom_sifft64 as windowed_custom_sifft, reverse64 as reverse, decimatei64 as decimatei, prepare_argument64 as prepare_argument, prepare_argument_padded64 as prepare_argument_padded, correlate64 as correlate, convolve_signal64 as convolve_signal, convolve_real64 as convolve_real, convolve_complex64 as convolve_complex, convolve64 as convolve, multiply_frequency_response_real64 as multiply_frequency_response_real, multiply_frequency_response_complex64 as multiply_frequency_response_complex, multiply_frequency_response64 as multiply_frequency_response, interpolatef_custom64 as interpolatef_custom, interpolatef64 as interpolatef, interpolate_custom64 as interpolate_custom, interpolate64 as interpolate, interpft64 as interpft, interpolatei_custom64 as interpolatei_custom, interpolatei64 as interpolatei, interpolate_lin64 as interpolate_lin, interpolate_hermite64 as interpolate_hermite}; }
    type T = f64; type C = num_complex::Complex64;
    extern "C" { fn fft_shift64(v: Box<f::VecBuf>) -> basic_dsp_interop::VectorInteropResult<f::VecBuf>; fn ifft_shift64(v: Box<f::VecBuf>) -> basic_dsp_interop::VectorInteropResult<f::VecBuf>; }
    use self::{fft_shift64 as fft_shift, ifft_shift64 as ifft_shift};
    include!("c21_body.in");
}
pub fn run(ctx: &crate::fw::Ctx) { w32::run(ctx); w64::run(ctx); }
