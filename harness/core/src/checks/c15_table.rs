[
    b!(add_u8, Add, u8, u8, u8),
    b!(add_u8_u16, Add, u8, u8, u16),
    b!(add_u8_u32, Add, u8, u8, u32),
    b!(add_u8_u64, Add, u8, u8, u64),
    b!(add_u8_i16, Add, u8, u8, i16),
    b!(add_u8_i32, Add, u8, u8, i32),
    b!(add_u8_i64, Add, u8, u8, i64),
    b!(add_u8_u16_u16, Add, u8, u16, u16),
    b!(add_u8_u16_u32, Add, u8, u16, u32),
    b!(add_u8_u16_u64, Add, u8, u16, u64),
    b!(add_u8_u16_i32, Add, u8, u16, i32),
    b!(add_u8_u16_i64, Add, u8, u16, i64),
    b!(add_u8_u32_u32, Add, u8, u32, u32),
    b!(add_u8_u32_u64, Add, u8, u32, u64),
    b!(add_u8_u32_i64, Add, u8, u32, i64),
    b!(add_u8_i8_i16, Add, u8, i8, i16),
    b!(add_u8_i8_i32, Add, u8, i8, i32),
    b!(add_u8_i8_i64, Add, u8, i8, i64),
    b!(add_u8_i16_i16, Add, u8, i16, i16),
    b!(add_u8_i16_i32, Add, u8, i16, i32),
    b!(add_u8_i16_i64, Add, u8, i16, i64),
    b!(add_u8_i32_i32, Add, u8, i32, i32),
    b!(add_u8_i32_i64, Add, u8, i32, i64),
    b!(add_u16_u8_u16, Add, u16, u8, u16),
    b!(add_u16_u8_u32, Add, u16, u8, u32),
    b!(add_u16_u8_u64, Add, u16, u8, u64),
    b!(add_u16_u8_i32, Add, u16, u8, i32),
    b!(add_u16_u8_i64, Add, u16, u8, i64),
    b!(add_u16, Add, u16, u16, u16),
    b!(add_u16_u32, Add, u16, u16, u32),
    b!(add_u16_u64, Add, u16, u16, u64),
    b!(add_u16_i32, Add, u16, u16, i32),
    b!(add_u16_i64, Add, u16, u16, i64),
    b!(add_u16_u32_u32, Add, u16, u32, u32),
    b!(add_u16_u32_u64, Add, u16, u32, u64),
    b!(add_u16_u32_i64, Add, u16, u32, i64),
    b!(add_u16_i8_i32, Add, u16, i8, i32),
    b!(add_u16_i8_i64, Add, u16, i8, i64),
    b!(add_u16_i16_i32, Add, u16, i16, i32),
    b!(add_u16_i16_i64, Add, u16, i16, i64),
    b!(add_u16_i32_i32, Add, u16, i32, i32),
    b!(add_u16_i32_i64, Add, u16, i32, i64),
    b!(add_u32_u8_u32, Add, u32, u8, u32),
    b!(add_u32_u8_u64, Add, u32, u8, u64),
    b!(add_u32_u8_i64, Add, u32, u8, i64),
    b!(add_u32_u16_u32, Add, u32, u16, u32),
    b!(add_u32_u16_u64, Add, u32, u16, u64),
    b!(add_u32_u16_i64, Add, u32, u16, i64),
    b!(add_u32, Add, u32, u32, u32),
    b!(add_u32_u64, Add, u32, u32, u64),
    b!(add_u32_i64, Add, u32, u32, i64),
    b!(add_u32_i8_i64, Add, u32, i8, i64),
    b!(add_u32_i16_i64, Add, u32, i16, i64),
    b!(add_u32_i32_i64, Add, u32, i32, i64),
    b!(add_u64, Add, u64, u64, u64),
    b!(add_i8_u8_i16, Add, i8, u8, i16),
    b!(add_i8_u8_i32, Add, i8, u8, i32),
    b!(add_i8_u8_i64, Add, i8, u8, i64),
    b!(add_i8_u16_i32, Add, i8, u16, i32),
    b!(add_i8_u16_i64, Add, i8, u16, i64),
    b!(add_i8_u32_i64, Add, i8, u32, i64),
    b!(add_i8, Add, i8, i8, i8),
    b!(add_i8_i16, Add, i8, i8, i16),
    b!(add_i8_i32, Add, i8, i8, i32),
    b!(add_i8_i64, Add, i8, i8, i64),
    b!(add_i8_i16_i16, Add, i8, i16, i16),
    b!(add_i8_i16_i32, Add, i8, i16, i32),
    b!(add_i8_i16_i64, Add, i8, i16, i64),
    b!(add_i8_i32_i32, Add, i8, i32, i32),
    b!(add_i8_i32_i64, Add, i8, i32, i64),
    b!(add_i16_u8_i16, Add, i16, u8, i16),
    b!(add_i16_u8_i32, Add, i16, u8, i32),
    b!(add_i16_u8_i64, Add, i16, u8, i64),
    b!(add_i16_u16_i32, Add, i16, u16, i32),
    b!(add_i16_u16_i64, Add, i16, u16, i64),
    b!(add_i16_u32_i64, Add, i16, u32, i64),
    b!(add_i16_i8_i16, Add, i16, i8, i16),
    b!(add_i16_i8_i32, Add, i16, i8, i32),
    b!(add_i16_i8_i64, Add, i16, i8, i64),
    b!(add_i16, Add, i16, i16, i16),
    b!(add_i16_i32, Add, i16, i16, i32),
    b!(add_i16_i64, Add, i16, i16, i64),
    b!(add_i16_i32_i32, Add, i16, i32, i32),
    b!(add_i16_i32_i64, Add, i16, i32, i64),
    b!(add_i32_u8_i32, Add, i32, u8, i32),
    b!(add_i32_u8_i64, Add, i32, u8, i64),
    b!(add_i32_u16_i32, Add, i32, u16, i32),
    b!(add_i32_u16_i64, Add, i32, u16, i64),
    b!(add_i32_u32_i64, Add, i32, u32, i64),
    b!(add_i32_i8_i32, Add, i32, i8, i32),
    b!(add_i32_i8_i64, Add, i32, i8, i64),
    b!(add_i32_i16_i32, Add, i32, i16, i32),
    b!(add_i32_i16_i64, Add, i32, i16, i64),
    b!(add_i32, Add, i32, i32, i32),
    b!(add_i32_i64, Add, i32, i32, i64),
    b!(add_i64, Add, i64, i64, i64),
    b!(sub_u8, Sub, u8, u8, u8),
    b!(sub_u8_u16, Sub, u8, u8, u16),
    b!(sub_u8_u32, Sub, u8, u8, u32),
    b!(sub_u8_u64, Sub, u8, u8, u64),
    b!(sub_u8_i16, Sub, u8, u8, i16),
    b!(sub_u8_i32, Sub, u8, u8, i32),
    b!(sub_u8_i64, Sub, u8, u8, i64),
    b!(sub_u8_u16_u16, Sub, u8, u16, u16),
    b!(sub_u8_u16_u32, Sub, u8, u16, u32),
    b!(sub_u8_u16_u64, Sub, u8, u16, u64),
    b!(sub_u8_u16_i32, Sub, u8, u16, i32),
    b!(sub_u8_u16_i64, Sub, u8, u16, i64),
    b!(sub_u8_u32_u32, Sub, u8, u32, u32),
    b!(sub_u8_u32_u64, Sub, u8, u32, u64),
    b!(sub_u8_u32_i64, Sub, u8, u32, i64),
    b!(sub_u8_i8_i16, Sub, u8, i8, i16),
    b!(sub_u8_i8_i32, Sub, u8, i8, i32),
    b!(sub_u8_i8_i64, Sub, u8, i8, i64),
    b!(sub_u8_i16_i16, Sub, u8, i16, i16),
    b!(sub_u8_i16_i32, Sub, u8, i16, i32),
    b!(sub_u8_i16_i64, Sub, u8, i16, i64),
    b!(sub_u8_i32_i32, Sub, u8, i32, i32),
    b!(sub_u8_i32_i64, Sub, u8, i32, i64),
    b!(sub_u16_u8_u16, Sub, u16, u8, u16),
    b!(sub_u16_u8_u32, Sub, u16, u8, u32),
    b!(sub_u16_u8_u64, Sub, u16, u8, u64),
    b!(sub_u16_u8_i32, Sub, u16, u8, i32),
    b!(sub_u16_u8_i64, Sub, u16, u8, i64),
    b!(sub_u16, Sub, u16, u16, u16),
    b!(sub_u16_u32, Sub, u16, u16, u32),
    b!(sub_u16_u64, Sub, u16, u16, u64),
    b!(sub_u16_i32, Sub, u16, u16, i32),
    b!(sub_u16_i64, Sub, u16, u16, i64),
    b!(sub_u16_u32_u32, Sub, u16, u32, u32),
    b!(sub_u16_u32_u64, Sub, u16, u32, u64),
    b!(sub_u16_u32_i64, Sub, u16, u32, i64),
    b!(sub_u16_i8_i32, Sub, u16, i8, i32),
    b!(sub_u16_i8_i64, Sub, u16, i8, i64),
    b!(sub_u16_i16_i32, Sub, u16, i16, i32),
    b!(sub_u16_i16_i64, Sub, u16, i16, i64),
    b!(sub_u16_i32_i32, Sub, u16, i32, i32),
    b!(sub_u16_i32_i64, Sub, u16, i32, i64),
    b!(sub_u32_u8_u32, Sub, u32, u8, u32),
    b!(sub_u32_u8_u64, Sub, u32, u8, u64),
    b!(sub_u32_u8_i64, Sub, u32, u8, i64),
    b!(sub_u32_u16_u32, Sub, u32, u16, u32),
    b!(sub_u32_u16_u64, Sub, u32, u16, u64),
    b!(sub_u32_u16_i64, Sub, u32, u16, i64),
    b!(sub_u32, Sub, u32, u32, u32),
    b!(sub_u32_u64, Sub, u32, u32, u64),
    b!(sub_u32_i64, Sub, u32, u32, i64),
    b!(sub_u32_i8_i64, Sub, u32, i8, i64),
    b!(sub_u32_i16_i64, Sub, u32, i16, i64),
    b!(sub_u32_i32_i64, Sub, u32, i32, i64),
    b!(sub_u64, Sub, u64, u64, u64),
    b!(sub_i8_u8_i16, Sub, i8, u8, i16),
    b!(sub_i8_u8_i32, Sub, i8, u8, i32),
    b!(sub_i8_u8_i64, Sub, i8, u8, i64),
    b!(sub_i8_u16_i32, Sub, i8, u16, i32),
    b!(sub_i8_u16_i64, Sub, i8, u16, i64),
    b!(sub_i8_u32_i64, Sub, i8, u32, i64),
    b!(sub_i8, Sub, i8, i8, i8),
    b!(sub_i8_i16, Sub, i8, i8, i16),
    b!(sub_i8_i32, Sub, i8, i8, i32),
    b!(sub_i8_i64, Sub, i8, i8, i64),
    b!(sub_i8_i16_i16, Sub, i8, i16, i16),
    b!(sub_i8_i16_i32, Sub, i8, i16, i32),
    b!(sub_i8_i16_i64, Sub, i8, i16, i64),
    b!(sub_i8_i32_i32, Sub, i8, i32, i32),
    b!(sub_i8_i32_i64, Sub, i8, i32, i64),
    b!(sub_i16_u8_i16, Sub, i16, u8, i16),
    b!(sub_i16_u8_i32, Sub, i16, u8, i32),
    b!(sub_i16_u8_i64, Sub, i16, u8, i64),
    b!(sub_i16_u16_i32, Sub, i16, u16, i32),
    b!(sub_i16_u16_i64, Sub, i16, u16, i64),
    b!(sub_i16_u32_i64, Sub, i16, u32, i64),
    b!(sub_i16_i8_i16, Sub, i16, i8, i16),
    b!(sub_i16_i8_i32, Sub, i16, i8, i32),
    b!(sub_i16_i8_i64, Sub, i16, i8, i64),
    b!(sub_i16, Sub, i16, i16, i16),
    b!(sub_i16_i32, Sub, i16, i16, i32),
    b!(sub_i16_i64, Sub, i16, i16, i64),
    b!(sub_i16_i32_i32, Sub, i16, i32, i32),
    b!(sub_i16_i32_i64, Sub, i16, i32, i64),
    b!(sub_i32_u8_i32, Sub, i32, u8, i32),
    b!(sub_i32_u8_i64, Sub, i32, u8, i64),
    b!(sub_i32_u16_i32, Sub, i32, u16, i32),
    b!(sub_i32_u16_i64, Sub, i32, u16, i64),
    b!(sub_i32_u32_i64, Sub, i32, u32, i64),
    b!(sub_i32_i8_i32, Sub, i32, i8, i32),
    b!(sub_i32_i8_i64, Sub, i32, i8, i64),
    b!(sub_i32_i16_i32, Sub, i32, i16, i32),
    b!(sub_i32_i16_i64, Sub, i32, i16, i64),
    b!(sub_i32, Sub, i32, i32, i32),
    b!(sub_i32_i64, Sub, i32, i32, i64),
    b!(sub_i64, Sub, i64, i64, i64),
    b!(mul_u8, Mul, u8, u8, u8),
    b!(mul_u8_u16, Mul, u8, u8, u16),
    b!(mul_u8_u32, Mul, u8, u8, u32),
    b!(mul_u8_u64, Mul, u8, u8, u64),
    b!(mul_u8_i16, Mul, u8, u8, i16),
    b!(mul_u8_i32, Mul, u8, u8, i32),
    b!(mul_u8_i64, Mul, u8, u8, i64),
    b!(mul_u8_u16_u16, Mul, u8, u16, u16),
    b!(mul_u8_u16_u32, Mul, u8, u16, u32),
    b!(mul_u8_u16_u64, Mul, u8, u16, u64),
    b!(mul_u8_u16_i32, Mul, u8, u16, i32),
    b!(mul_u8_u16_i64, Mul, u8, u16, i64),
    b!(mul_u8_u32_u32, Mul, u8, u32, u32),
    b!(mul_u8_u32_u64, Mul, u8, u32, u64),
    b!(mul_u8_u32_i64, Mul, u8, u32, i64),
    b!(mul_u8_i8_i16, Mul, u8, i8, i16),
    b!(mul_u8_i8_i32, Mul, u8, i8, i32),
    b!(mul_u8_i8_i64, Mul, u8, i8, i64),
    b!(mul_u8_i16_i16, Mul, u8, i16, i16),
    b!(mul_u8_i16_i32, Mul, u8, i16, i32),
    b!(mul_u8_i16_i64, Mul, u8, i16, i64),
    b!(mul_u8_i32_i32, Mul, u8, i32, i32),
    b!(mul_u8_i32_i64, Mul, u8, i32, i64),
    b!(mul_u16_u8_u16, Mul, u16, u8, u16),
    b!(mul_u16_u8_u32, Mul, u16, u8, u32),
    b!(mul_u16_u8_u64, Mul, u16, u8, u64),
    b!(mul_u16_u8_i32, Mul, u16, u8, i32),
    b!(mul_u16_u8_i64, Mul, u16, u8, i64),
    b!(mul_u16, Mul, u16, u16, u16),
    b!(mul_u16_u32, Mul, u16, u16, u32),
    b!(mul_u16_u64, Mul, u16, u16, u64),
    b!(mul_u16_i32, Mul, u16, u16, i32),
    b!(mul_u16_i64, Mul, u16, u16, i64),
    b!(mul_u16_u32_u32, Mul, u16, u32, u32),
    b!(mul_u16_u32_u64, Mul, u16, u32, u64),
    b!(mul_u16_u32_i64, Mul, u16, u32, i64),
    b!(mul_u16_i8_i32, Mul, u16, i8, i32),
    b!(mul_u16_i8_i64, Mul, u16, i8, i64),
    b!(mul_u16_i16_i32, Mul, u16, i16, i32),
    b!(mul_u16_i16_i64, Mul, u16, i16, i64),
    b!(mul_u16_i32_i32, Mul, u16, i32, i32),
    b!(mul_u16_i32_i64, Mul, u16, i32, i64),
    b!(mul_u32_u8_u32, Mul, u32, u8, u32),
    b!(mul_u32_u8_u64, Mul, u32, u8, u64),
    b!(mul_u32_u8_i64, Mul, u32, u8, i64),
    b!(mul_u32_u16_u32, Mul, u32, u16, u32),
    b!(mul_u32_u16_u64, Mul, u32, u16, u64),
    b!(mul_u32_u16_i64, Mul, u32, u16, i64),
    b!(mul_u32, Mul, u32, u32, u32),
    b!(mul_u32_u64, Mul, u32, u32, u64),
    b!(mul_u32_i64, Mul, u32, u32, i64),
    b!(mul_u32_i8_i64, Mul, u32, i8, i64),
    b!(mul_u32_i16_i64, Mul, u32, i16, i64),
    b!(mul_u32_i32_i64, Mul, u32, i32, i64),
    b!(mul_u64, Mul, u64, u64, u64),
    b!(mul_i8_u8_i16, Mul, i8, u8, i16),
    b!(mul_i8_u8_i32, Mul, i8, u8, i32),
    b!(mul_i8_u8_i64, Mul, i8, u8, i64),
    b!(mul_i8_u16_i32, Mul, i8, u16, i32),
    b!(mul_i8_u16_i64, Mul, i8, u16, i64),
    b!(mul_i8_u32_i64, Mul, i8, u32, i64),
    b!(mul_i8, Mul, i8, i8, i8),
    b!(mul_i8_i16, Mul, i8, i8, i16),
    b!(mul_i8_i32, Mul, i8, i8, i32),
    b!(mul_i8_i64, Mul, i8, i8, i64),
    b!(mul_i8_i16_i16, Mul, i8, i16, i16),
    b!(mul_i8_i16_i32, Mul, i8, i16, i32),
    b!(mul_i8_i16_i64, Mul, i8, i16, i64),
    b!(mul_i8_i32_i32, Mul, i8, i32, i32),
    b!(mul_i8_i32_i64, Mul, i8, i32, i64),
    b!(mul_i16_u8_i16, Mul, i16, u8, i16),
    b!(mul_i16_u8_i32, Mul, i16, u8, i32),
    b!(mul_i16_u8_i64, Mul, i16, u8, i64),
    b!(mul_i16_u16_i32, Mul, i16, u16, i32),
    b!(mul_i16_u16_i64, Mul, i16, u16, i64),
    b!(mul_i16_u32_i64, Mul, i16, u32, i64),
    b!(mul_i16_i8_i16, Mul, i16, i8, i16),
    b!(mul_i16_i8_i32, Mul, i16, i8, i32),
    b!(mul_i16_i8_i64, Mul, i16, i8, i64),
    b!(mul_i16, Mul, i16, i16, i16),
    b!(mul_i16_i32, Mul, i16, i16, i32),
    b!(mul_i16_i64, Mul, i16, i16, i64),
    b!(mul_i16_i32_i32, Mul, i16, i32, i32),
    b!(mul_i16_i32_i64, Mul, i16, i32, i64),
    b!(mul_i32_u8_i32, Mul, i32, u8, i32),
    b!(mul_i32_u8_i64, Mul, i32, u8, i64),
    b!(mul_i32_u16_i32, Mul, i32, u16, i32),
    b!(mul_i32_u16_i64, Mul, i32, u16, i64),
    b!(mul_i32_u32_i64, Mul, i32, u32, i64),
    b!(mul_i32_i8_i32, Mul, i32, i8, i32),
    b!(mul_i32_i8_i64, Mul, i32, i8, i64),
    b!(mul_i32_i16_i32, Mul, i32, i16, i32),
    b!(mul_i32_i16_i64, Mul, i32, i16, i64),
    b!(mul_i32, Mul, i32, i32, i32),
    b!(mul_i32_i64, Mul, i32, i32, i64),
    b!(mul_i64, Mul, i64, i64, i64),
    b!(div_u8, Div, u8, u8, u8),
    b!(div_u8_u16, Div, u8, u8, u16),
    b!(div_u8_u32, Div, u8, u8, u32),
    b!(div_u8_u64, Div, u8, u8, u64),
    b!(div_u8_i16, Div, u8, u8, i16),
    b!(div_u8_i32, Div, u8, u8, i32),
    b!(div_u8_i64, Div, u8, u8, i64),
    b!(div_u8_u16_u16, Div, u8, u16, u16),
    b!(div_u8_u16_u32, Div, u8, u16, u32),
    b!(div_u8_u16_u64, Div, u8, u16, u64),
    b!(div_u8_u16_i32, Div, u8, u16, i32),
    b!(div_u8_u16_i64, Div, u8, u16, i64),
    b!(div_u8_u32_u32, Div, u8, u32, u32),
    b!(div_u8_u32_u64, Div, u8, u32, u64),
    b!(div_u8_u32_i64, Div, u8, u32, i64),
    b!(div_u8_i8_i16, Div, u8, i8, i16),
    b!(div_u8_i8_i32, Div, u8, i8, i32),
    b!(div_u8_i8_i64, Div, u8, i8, i64),
    b!(div_u8_i16_i16, Div, u8, i16, i16),
    b!(div_u8_i16_i32, Div, u8, i16, i32),
    b!(div_u8_i16_i64, Div, u8, i16, i64),
    b!(div_u8_i32_i32, Div, u8, i32, i32),
    b!(div_u8_i32_i64, Div, u8, i32, i64),
    b!(div_u16_u8_u16, Div, u16, u8, u16),
    b!(div_u16_u8_u32, Div, u16, u8, u32),
    b!(div_u16_u8_u64, Div, u16, u8, u64),
    b!(div_u16_u8_i32, Div, u16, u8, i32),
    b!(div_u16_u8_i64, Div, u16, u8, i64),
    b!(div_u16, Div, u16, u16, u16),
    b!(div_u16_u32, Div, u16, u16, u32),
    b!(div_u16_u64, Div, u16, u16, u64),
    b!(div_u16_i32, Div, u16, u16, i32),
    b!(div_u16_i64, Div, u16, u16, i64),
    b!(div_u16_u32_u32, Div, u16, u32, u32),
    b!(div_u16_u32_u64, Div, u16, u32, u64),
    b!(div_u16_u32_i64, Div, u16, u32, i64),
    b!(div_u16_i8_i32, Div, u16, i8, i32),
    b!(div_u16_i8_i64, Div, u16, i8, i64),
    b!(div_u16_i16_i32, Div, u16, i16, i32),
    b!(div_u16_i16_i64, Div, u16, i16, i64),
    b!(div_u16_i32_i32, Div, u16, i32, i32),
    b!(div_u16_i32_i64, Div, u16, i32, i64),
    b!(div_u32_u8_u32, Div, u32, u8, u32),
    b!(div_u32_u8_u64, Div, u32, u8, u64),
    b!(div_u32_u8_i64, Div, u32, u8, i64),
    b!(div_u32_u16_u32, Div, u32, u16, u32),
    b!(div_u32_u16_u64, Div, u32, u16, u64),
    b!(div_u32_u16_i64, Div, u32, u16, i64),
    b!(div_u32, Div, u32, u32, u32),
    b!(div_u32_u64, Div, u32, u32, u64),
    b!(div_u32_i64, Div, u32, u32, i64),
    b!(div_u32_i8_i64, Div, u32, i8, i64),
    b!(div_u32_i16_i64, Div, u32, i16, i64),
    b!(div_u32_i32_i64, Div, u32, i32, i64),
    b!(div_u64, Div, u64, u64, u64),
    b!(div_i8_u8_i16, Div, i8, u8, i16),
    b!(div_i8_u8_i32, Div, i8, u8, i32),
    b!(div_i8_u8_i64, Div, i8, u8, i64),
    b!(div_i8_u16_i32, Div, i8, u16, i32),
    b!(div_i8_u16_i64, Div, i8, u16, i64),
    b!(div_i8_u32_i64, Div, i8, u32, i64),
    b!(div_i8, Div, i8, i8, i8),
    b!(div_i8_i16, Div, i8, i8, i16),
    b!(div_i8_i32, Div, i8, i8, i32),
    b!(div_i8_i64, Div, i8, i8, i64),
    b!(div_i8_i16_i16, Div, i8, i16, i16),
    b!(div_i8_i16_i32, Div, i8, i16, i32),
    b!(div_i8_i16_i64, Div, i8, i16, i64),
    b!(div_i8_i32_i32, Div, i8, i32, i32),
    b!(div_i8_i32_i64, Div, i8, i32, i64),
    b!(div_i16_u8_i16, Div, i16, u8, i16),
    b!(div_i16_u8_i32, Div, i16, u8, i32),
    b!(div_i16_u8_i64, Div, i16, u8, i64),
    b!(div_i16_u16_i32, Div, i16, u16, i32),
    b!(div_i16_u16_i64, Div, i16, u16, i64),
    b!(div_i16_u32_i64, Div, i16, u32, i64),
    b!(div_i16_i8_i16, Div, i16, i8, i16),
    b!(div_i16_i8_i32, Div, i16, i8, i32),
    b!(div_i16_i8_i64, Div, i16, i8, i64),
    b!(div_i16, Div, i16, i16, i16),
    b!(div_i16_i32, Div, i16, i16, i32),
    b!(div_i16_i64, Div, i16, i16, i64),
    b!(div_i16_i32_i32, Div, i16, i32, i32),
    b!(div_i16_i32_i64, Div, i16, i32, i64),
    b!(div_i32_u8_i32, Div, i32, u8, i32),
    b!(div_i32_u8_i64, Div, i32, u8, i64),
    b!(div_i32_u16_i32, Div, i32, u16, i32),
    b!(div_i32_u16_i64, Div, i32, u16, i64),
    b!(div_i32_u32_i64, Div, i32, u32, i64),
    b!(div_i32_i8_i32, Div, i32, i8, i32),
    b!(div_i32_i8_i64, Div, i32, i8, i64),
    b!(div_i32_i16_i32, Div, i32, i16, i32),
    b!(div_i32_i16_i64, Div, i32, i16, i64),
    b!(div_i32, Div, i32, i32, i32),
    b!(div_i32_i64, Div, i32, i32, i64),
    b!(div_i64, Div, i64, i64, i64),
    b!(rem_u8, Rem, u8, u8, u8),
    b!(rem_u8_u16, Rem, u8, u8, u16),
    b!(rem_u8_u32, Rem, u8, u8, u32),
    b!(rem_u8_u64, Rem, u8, u8, u64),
    b!(rem_u8_i16, Rem, u8, u8, i16),
    b!(rem_u8_i32, Rem, u8, u8, i32),
    b!(rem_u8_i64, Rem, u8, u8, i64),
    b!(rem_u8_u16_u16, Rem, u8, u16, u16),
    b!(rem_u8_u16_u32, Rem, u8, u16, u32),
    b!(rem_u8_u16_u64, Rem, u8, u16, u64),
    b!(rem_u8_u16_i32, Rem, u8, u16, i32),
    b!(rem_u8_u16_i64, Rem, u8, u16, i64),
    b!(rem_u8_u32_u32, Rem, u8, u32, u32),
    b!(rem_u8_u32_u64, Rem, u8, u32, u64),
    b!(rem_u8_u32_i64, Rem, u8, u32, i64),
    b!(rem_u8_i8_i16, Rem, u8, i8, i16),
    b!(rem_u8_i8_i32, Rem, u8, i8, i32),
    b!(rem_u8_i8_i64, Rem, u8, i8, i64),
    b!(rem_u8_i16_i16, Rem, u8, i16, i16),
    b!(rem_u8_i16_i32, Rem, u8, i16, i32),
    b!(rem_u8_i16_i64, Rem, u8, i16, i64),
    b!(rem_u8_i32_i32, Rem, u8, i32, i32),
    b!(rem_u8_i32_i64, Rem, u8, i32, i64),
    b!(rem_u16_u8_u16, Rem, u16, u8, u16),
    b!(rem_u16_u8_u32, Rem, u16, u8, u32),
    b!(rem_u16_u8_u64, Rem, u16, u8, u64),
    b!(rem_u16_u8_i32, Rem, u16, u8, i32),
    b!(rem_u16_u8_i64, Rem, u16, u8, i64),
    b!(rem_u16, Rem, u16, u16, u16),
    b!(rem_u16_u32, Rem, u16, u16, u32),
    b!(rem_u16_u64, Rem, u16, u16, u64),
    b!(rem_u16_i32, Rem, u16, u16, i32),
    b!(rem_u16_i64, Rem, u16, u16, i64),
    b!(rem_u16_u32_u32, Rem, u16, u32, u32),
    b!(rem_u16_u32_u64, Rem, u16, u32, u64),
    b!(rem_u16_u32_i64, Rem, u16, u32, i64),
    b!(rem_u16_i8_i32, Rem, u16, i8, i32),
    b!(rem_u16_i8_i64, Rem, u16, i8, i64),
    b!(rem_u16_i16_i32, Rem, u16, i16, i32),
    b!(rem_u16_i16_i64, Rem, u16, i16, i64),
    b!(rem_u16_i32_i32, Rem, u16, i32, i32),
    b!(rem_u16_i32_i64, Rem, u16, i32, i64),
    b!(rem_u32_u8_u32, Rem, u32, u8, u32),
    b!(rem_u32_u8_u64, Rem, u32, u8, u64),
    b!(rem_u32_u8_i64, Rem, u32, u8, i64),
    b!(rem_u32_u16_u32, Rem, u32, u16, u32),
    b!(rem_u32_u16_u64, Rem, u32, u16, u64),
    b!(rem_u32_u16_i64, Rem, u32, u16, i64),
    b!(rem_u32, Rem, u32, u32, u32),
    b!(rem_u32_u64, Rem, u32, u32, u64),
    b!(rem_u32_i64, Rem, u32, u32, i64),
    b!(rem_u32_i8_i64, Rem, u32, i8, i64),
    b!(rem_u32_i16_i64, Rem, u32, i16, i64),
    b!(rem_u32_i32_i64, Rem, u32, i32, i64),
    b!(rem_u64, Rem, u64, u64, u64),
    b!(rem_i8_u8_i16, Rem, i8, u8, i16),
    b!(rem_i8_u8_i32, Rem, i8, u8, i32),
    b!(rem_i8_u8_i64, Rem, i8, u8, i64),
    b!(rem_i8_u16_i32, Rem, i8, u16, i32),
    b!(rem_i8_u16_i64, Rem, i8, u16, i64),
    b!(rem_i8_u32_i64, Rem, i8, u32, i64),
    b!(rem_i8, Rem, i8, i8, i8),
    b!(rem_i8_i16, Rem, i8, i8, i16),
    b!(rem_i8_i32, Rem, i8, i8, i32),
    b!(rem_i8_i64, Rem, i8, i8, i64),
    b!(rem_i8_i16_i16, Rem, i8, i16, i16),
    b!(rem_i8_i16_i32, Rem, i8, i16, i32),
    b!(rem_i8_i16_i64, Rem, i8, i16, i64),
    b!(rem_i8_i32_i32, Rem, i8, i32, i32),
    b!(rem_i8_i32_i64, Rem, i8, i32, i64),
    b!(rem_i16_u8_i16, Rem, i16, u8, i16),
    b!(rem_i16_u8_i32, Rem, i16, u8, i32),
    b!(rem_i16_u8_i64, Rem, i16, u8, i64),
    b!(rem_i16_u16_i32, Rem, i16, u16, i32),
    b!(rem_i16_u16_i64, Rem, i16, u16, i64),
    b!(rem_i16_u32_i64, Rem, i16, u32, i64),
    b!(rem_i16_i8_i16, Rem, i16, i8, i16),
    b!(rem_i16_i8_i32, Rem, i16, i8, i32),
    b!(rem_i16_i8_i64, Rem, i16, i8, i64),
    b!(rem_i16, Rem, i16, i16, i16),
    b!(rem_i16_i32, Rem, i16, i16, i32),
    b!(rem_i16_i64, Rem, i16, i16, i64),
    b!(rem_i16_i32_i32, Rem, i16, i32, i32),
    b!(rem_i16_i32_i64, Rem, i16, i32, i64),
    b!(rem_i32_u8_i32, Rem, i32, u8, i32),
    b!(rem_i32_u8_i64, Rem, i32, u8, i64),
    b!(rem_i32_u16_i32, Rem, i32, u16, i32),
    b!(rem_i32_u16_i64, Rem, i32, u16, i64),
    b!(rem_i32_u32_i64, Rem, i32, u32, i64),
    b!(rem_i32_i8_i32, Rem, i32, i8, i32),
    b!(rem_i32_i8_i64, Rem, i32, i8, i64),
    b!(rem_i32_i16_i32, Rem, i32, i16, i32),
    b!(rem_i32_i16_i64, Rem, i32, i16, i64),
    b!(rem_i32, Rem, i32, i32, i32),
    b!(rem_i32_i64, Rem, i32, i32, i64),
    b!(rem_i64, Rem, i64, i64, i64),
    u!(neg_u8, Neg, u8, u8),
    u!(abs_u8, Abs, u8, u8),
    u!(cast_u8_u16, Cast, u8, u16),
    u!(neg_u8_u16, Neg, u8, u16),
    u!(abs_u8_u16, Abs, u8, u16),
    u!(cast_u8_u32, Cast, u8, u32),
    u!(neg_u8_u32, Neg, u8, u32),
    u!(abs_u8_u32, Abs, u8, u32),
    u!(cast_u8_u64, Cast, u8, u64),
    u!(neg_u8_u64, Neg, u8, u64),
    u!(abs_u8_u64, Abs, u8, u64),
    u!(cast_u8_i8, Cast, u8, i8),
    u!(cast_u8_i16, Cast, u8, i16),
    u!(neg_u8_i16, Neg, u8, i16),
    u!(abs_u8_i16, Abs, u8, i16),
    u!(cast_u8_i32, Cast, u8, i32),
    u!(neg_u8_i32, Neg, u8, i32),
    u!(abs_u8_i32, Abs, u8, i32),
    u!(cast_u8_i64, Cast, u8, i64),
    u!(neg_u8_i64, Neg, u8, i64),
    u!(abs_u8_i64, Abs, u8, i64),
    u!(cast_u16_u8, Cast, u16, u8),
    u!(neg_u16_u8, Neg, u16, u8),
    u!(neg_u16, Neg, u16, u16),
    u!(abs_u16, Abs, u16, u16),
    u!(cast_u16_u32, Cast, u16, u32),
    u!(neg_u16_u32, Neg, u16, u32),
    u!(abs_u16_u32, Abs, u16, u32),
    u!(cast_u16_u64, Cast, u16, u64),
    u!(neg_u16_u64, Neg, u16, u64),
    u!(abs_u16_u64, Abs, u16, u64),
    u!(cast_u16_i8, Cast, u16, i8),
    u!(cast_u16_i16, Cast, u16, i16),
    u!(cast_u16_i32, Cast, u16, i32),
    u!(neg_u16_i32, Neg, u16, i32),
    u!(abs_u16_i32, Abs, u16, i32),
    u!(cast_u16_i64, Cast, u16, i64),
    u!(neg_u16_i64, Neg, u16, i64),
    u!(abs_u16_i64, Abs, u16, i64),
    u!(cast_u32_u8, Cast, u32, u8),
    u!(neg_u32_u8, Neg, u32, u8),
    u!(cast_u32_u16, Cast, u32, u16),
    u!(neg_u32_u16, Neg, u32, u16),
    u!(neg_u32, Neg, u32, u32),
    u!(abs_u32, Abs, u32, u32),
    u!(cast_u32_u64, Cast, u32, u64),
    u!(neg_u32_u64, Neg, u32, u64),
    u!(abs_u32_u64, Abs, u32, u64),
    u!(cast_u32_i8, Cast, u32, i8),
    u!(cast_u32_i16, Cast, u32, i16),
    u!(cast_u32_i32, Cast, u32, i32),
    u!(cast_u32_i64, Cast, u32, i64),
    u!(neg_u32_i64, Neg, u32, i64),
    u!(abs_u32_i64, Abs, u32, i64),
    u!(cast_u64_u8, Cast, u64, u8),
    u!(neg_u64_u8, Neg, u64, u8),
    u!(cast_u64_u16, Cast, u64, u16),
    u!(neg_u64_u16, Neg, u64, u16),
    u!(cast_u64_u32, Cast, u64, u32),
    u!(neg_u64_u32, Neg, u64, u32),
    u!(neg_u64, Neg, u64, u64),
    u!(abs_u64, Abs, u64, u64),
    u!(cast_u64_i8, Cast, u64, i8),
    u!(cast_u64_i16, Cast, u64, i16),
    u!(cast_u64_i32, Cast, u64, i32),
    u!(cast_u64_i64, Cast, u64, i64),
    u!(cast_i8_u8, Cast, i8, u8),
    u!(neg_i8_u8, Neg, i8, u8),
    u!(abs_i8_u8, Abs, i8, u8),
    u!(cast_i8_u16, Cast, i8, u16),
    u!(neg_i8_u16, Neg, i8, u16),
    u!(abs_i8_u16, Abs, i8, u16),
    u!(cast_i8_u32, Cast, i8, u32),
    u!(neg_i8_u32, Neg, i8, u32),
    u!(abs_i8_u32, Abs, i8, u32),
    u!(cast_i8_u64, Cast, i8, u64),
    u!(neg_i8_u64, Neg, i8, u64),
    u!(abs_i8_u64, Abs, i8, u64),
    u!(neg_i8, Neg, i8, i8),
    u!(abs_i8, Abs, i8, i8),
    u!(cast_i8_i16, Cast, i8, i16),
    u!(neg_i8_i16, Neg, i8, i16),
    u!(abs_i8_i16, Abs, i8, i16),
    u!(cast_i8_i32, Cast, i8, i32),
    u!(neg_i8_i32, Neg, i8, i32),
    u!(abs_i8_i32, Abs, i8, i32),
    u!(cast_i8_i64, Cast, i8, i64),
    u!(neg_i8_i64, Neg, i8, i64),
    u!(abs_i8_i64, Abs, i8, i64),
    u!(cast_i16_u8, Cast, i16, u8),
    u!(cast_i16_u16, Cast, i16, u16),
    u!(neg_i16_u16, Neg, i16, u16),
    u!(abs_i16_u16, Abs, i16, u16),
    u!(cast_i16_u32, Cast, i16, u32),
    u!(neg_i16_u32, Neg, i16, u32),
    u!(abs_i16_u32, Abs, i16, u32),
    u!(cast_i16_u64, Cast, i16, u64),
    u!(neg_i16_u64, Neg, i16, u64),
    u!(abs_i16_u64, Abs, i16, u64),
    u!(cast_i16_i8, Cast, i16, i8),
    u!(neg_i16, Neg, i16, i16),
    u!(abs_i16, Abs, i16, i16),
    u!(cast_i16_i32, Cast, i16, i32),
    u!(neg_i16_i32, Neg, i16, i32),
    u!(abs_i16_i32, Abs, i16, i32),
    u!(cast_i16_i64, Cast, i16, i64),
    u!(neg_i16_i64, Neg, i16, i64),
    u!(abs_i16_i64, Abs, i16, i64),
    u!(cast_i32_u8, Cast, i32, u8),
    u!(cast_i32_u16, Cast, i32, u16),
    u!(cast_i32_u32, Cast, i32, u32),
    u!(neg_i32_u32, Neg, i32, u32),
    u!(abs_i32_u32, Abs, i32, u32),
    u!(cast_i32_u64, Cast, i32, u64),
    u!(neg_i32_u64, Neg, i32, u64),
    u!(abs_i32_u64, Abs, i32, u64),
    u!(cast_i32_i8, Cast, i32, i8),
    u!(cast_i32_i16, Cast, i32, i16),
    u!(neg_i32, Neg, i32, i32),
    u!(abs_i32, Abs, i32, i32),
    u!(cast_i32_i64, Cast, i32, i64),
    u!(neg_i32_i64, Neg, i32, i64),
    u!(abs_i32_i64, Abs, i32, i64),
    u!(cast_i64_u8, Cast, i64, u8),
    u!(cast_i64_u16, Cast, i64, u16),
    u!(cast_i64_u32, Cast, i64, u32),
    u!(cast_i64_u64, Cast, i64, u64),
    u!(neg_i64_u64, Neg, i64, u64),
    u!(abs_i64_u64, Abs, i64, u64),
    u!(cast_i64_i8, Cast, i64, i8),
    u!(cast_i64_i16, Cast, i64, i16),
    u!(cast_i64_i32, Cast, i64, i32),
    u!(neg_i64, Neg, i64, i64),
    u!(abs_i64, Abs, i64, i64),
]
