mod frames;
mod helpers;
mod layers;
mod paint;
mod rgen;
mod select;

fn main() {
    // the fonts of the checks, for every font database the renderer loads
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    std::env::set_var("HOME", format!("{root}/fonts-home"));
    let mut v = vec![];
    v.extend(frames::properties());
    v.extend(layers::properties());
    v.extend(paint::properties());
    v.extend(select::properties());
    v.extend(helpers::properties());
    hcommon::main(v)
}
