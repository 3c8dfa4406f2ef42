fn main() {
    // libz3 (Debian libz3-dev) provides the solver back end.
    println!("cargo:rustc-link-lib=dylib=z3");
}
