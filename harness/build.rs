//! The trait of output renderers hands lists as vectors or as slices: either way they are the same lists. What its
//! methods are declared with is read from the crate, so that this crate implements them as they are.
use std::{env, fs, path::Path};

fn main() {
    let manifest = fs::read_to_string("Cargo.toml").unwrap_or_default();
    let root = manifest.lines().find(|l| l.starts_with("thermal_renderer")).and_then(|l| l.split('"').nth(1)).unwrap_or("").to_string();
    let file = Path::new(&root).join("src/renderer.rs");
    println!("cargo:rerun-if-changed={}", file.display());
    println!("cargo:rerun-if-changed=Cargo.toml");
    println!("cargo:rerun-if-changed=build.rs");
    let source = fs::read_to_string(&file).unwrap_or_default();
    let source = source.split("trait OutputRenderer").nth(1).unwrap_or("");
    let slice = |method: &str, item: &str| {
        let m = source.split(&format!("fn {method}")).nth(1).unwrap_or("");
        let args: String = m.split(|c| c == ';' || c == '{').next().unwrap_or("").split_whitespace().collect();
        args.contains(&format!("&[{item}]"))
    };
    let kind = |s: bool, item: &str| if s { format!("[{item}]") } else { format!("Vec<{item}>") };
    let out = format!(
        "pub type Graphics = {};\npub type Spans = {};\n",
        kind(slice("render_graphics", "VectorGraphic"), "thermal_parser::graphics::VectorGraphic"),
        kind(slice("render_text", "TextSpan"), "thermal_parser::text::TextSpan")
    );
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("lists.rs"), out).unwrap();
}
