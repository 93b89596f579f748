// engine self-test: concrete arithmetic whose results are observed and compared with native runs
fn obs(s: &str) { for b in s.bytes() { vx::observe(b as u64) } }
vx::harnesses! {
    h_u128 => || { let k = vx::choose(8); let x = (u64::MAX as u128) << [0u32, 1, 20, 60, 61, 62, 63, 64][k as usize]; obs(&x.to_string()); vx::observe((x / 10) as u64); vx::observe((x % 1_000_000_007) as u64); obs(&(-(x as i128)).to_string()) };
    h_i128 => || { let k = vx::choose(4); let x = [i128::MIN, i128::MAX, -1, 1i128 << 100][k as usize]; obs(&x.to_string()); obs(&format!("{:x}", x)); vx::observe(x.leading_zeros() as u64) };
    h_f64 => || { let k = vx::choose(6); let x = [0.1f64, 1e300, -2.5e-310, f64::MAX, 123456789.125, 1.0 / 3.0][k as usize]; obs(&x.to_string()); obs(&format!("{:?}", x as f32)); vx::observe("1.7976931348623157e308".parse::<f64>().unwrap().to_bits()); vx::observe(x.to_string().parse::<f64>().unwrap().to_bits()) };
    h_parse => || { let k = vx::choose(4); let s = ["18446744073709551615", "340282366920938463463374607431768211455", "-170141183460469231731687303715884105728", "99999999999999999999999999999999999999999"][k as usize]; vx::observe(s.parse::<u64>().unwrap_or(7)); vx::observe(s.parse::<u128>().map(|x| x as u64 ^ (x >> 64) as u64).unwrap_or(7)); vx::observe(s.parse::<i128>().map(|x| x as u64).unwrap_or(7)) };
    h_s1 => || { let a = vx::byte(); let b = vx::byte(); vx::assume(a.is_ascii_digit() && b.is_ascii_digit()); let t = [a, b]; let s = unsafe { std::str::from_utf8_unchecked(&t) }; let p = s.parse::<i128>().unwrap(); let mut n = 0i128; for c in t { n = n * 10 + (c - b'0') as i128; } vx::check(p == n, "eq"); if p > 5 { vx::check(n > 5, "gt") } else { vx::check(n <= 5, "le") } };
    h_s2 => || { let a = vx::byte(); let b = vx::byte(); vx::assume(a.is_ascii_digit() && b.is_ascii_digit()); let t = [a, b]; let s = unsafe { std::str::from_utf8_unchecked(&t) }; let p = s.parse::<i128>().unwrap(); let mut n = 0i128; for c in t { n = n * 10 + (c - b'0') as i128; } if p > 5 { vx::check(n > 5, "gt") } else { vx::check(n <= 5, "le") } };
    h_s3 => || { let a = vx::byte(); let b = vx::byte(); vx::assume(a.is_ascii_digit() && b.is_ascii_digit()); let t = [a, b]; let mut n = 0i128; for c in t { n = n * 10 + (c - b'0') as i128; } if n > 5 { vx::check(n > 4, "gt") } else { vx::check(n <= 5, "le") } vx::observe(n as u64) };
}
