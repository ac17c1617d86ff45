//! The checks that need the borsh feature, which excludes serde.
#[path = "../../harness/src/adapt.rs"]
mod adapt;
mod codec;
#[path = "../../harness/src/conf.rs"]
mod conf;
#[path = "../../harness/src/hist.rs"]
mod hist;
#[path = "../../harness/src/store.rs"]
mod store;

use engine::run::Prop;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("transcript") {
        std::process::exit(conf::transcript());
    }
    let props = vec![
        Prop {
            id: "C13",
            rule: "Values with boundary or uniform coordinates in random representations, and values the library computed (sums, differences, multiples, pairings, inverses, identities), written and read with borsh (to_vec, serialize, to_writer; deserialize, from_slice, from_reader, several values in one stream, inside tuples, vectors and options); the stored bytes are compared with the words of the reference coordinates. Non-trivial: not 0/1/identity.",
            assumptions: &["the stored form is the one the current release writes: Montgomery limbs, least significant word first, little endian, no lengths or tags"],
            subs: store::roundtrips(1),
        },
        Prop { id: "C14", rule: store::C14_RULE, assumptions: &["z = 0 with coordinates the operations never produce is left unspecified"], subs: store::refusals() },
        hist::c17(6, &["store-and-reload goes through borsh"]),
    ];
    std::process::exit(engine::run::main(props, "harness-borsh"));
}
