fn main() {
    println!("cargo:rustc-cfg=parsegen_verif");
    println!("cargo:rerun-if-env-changed=VMC_SRC_HASH");
    println!(
        "cargo:rustc-env=VMC_SRC_HASH={}",
        std::env::var("VMC_SRC_HASH").unwrap_or_default()
    );
}
