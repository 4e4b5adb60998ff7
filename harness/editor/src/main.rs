mod channel;
mod deltas;
mod doc;
mod events;
mod extensions;
mod facts;
mod formats;
mod media;
mod search;
mod sessions;
mod styles;
mod tags;
mod validation;

fn main() {
    let mut v = vec![];
    v.extend(channel::properties());
    v.extend(deltas::properties());
    v.extend(doc::properties());
    v.extend(events::properties());
    v.extend(extensions::properties());
    v.extend(facts::properties());
    v.extend(formats::properties());
    v.extend(media::properties());
    v.extend(search::properties());
    v.extend(sessions::properties());
    v.extend(styles::properties());
    v.extend(tags::properties());
    v.extend(validation::properties());
    hcommon::main(v)
}
