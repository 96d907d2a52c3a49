fn main() {
    // libz3-dev (z3 4.8.12) is pre-installed in the sandbox.
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rerun-if-changed=build.rs");
}
