// Calls of the native library go through the wrappers in src/native.rs.
fn main() {
    println!("cargo:rustc-link-arg=-Wl,--wrap=dnaupd_c");
    println!("cargo:rustc-link-arg=-Wl,--wrap=dneupd_c");
}
