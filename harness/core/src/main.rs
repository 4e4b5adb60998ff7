mod codec;
mod events;
mod parse;
mod plug;
mod script;
mod styles;
mod tok;
mod total;

fn main() {
    let mut v = vec![];
    v.extend(parse::properties());
    v.extend(styles::properties());
    v.extend(events::properties());
    v.extend(tok::properties());
    v.extend(codec::properties());
    v.extend(script::properties());
    v.extend(plug::properties());
    v.extend(total::properties());
    hcommon::main(v)
}
