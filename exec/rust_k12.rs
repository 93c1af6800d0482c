#[path = "@K12@"]
#[allow(dead_code, warnings)]
mod k12;
#[no_mangle]
pub unsafe extern "C" fn xv_rust_k12(m: *const u8, n: usize, c: *const u8, cn: usize, o: *mut u8, on: usize) {
    let v = k12::KangarooTwelve(std::slice::from_raw_parts(m, n), std::slice::from_raw_parts(c, cn), on);
    if v.len() != on { std::process::abort(); }
    std::ptr::copy_nonoverlapping(v.as_ptr(), o, on);
}
