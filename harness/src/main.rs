mod adapt;
mod bigint;
mod bytes;
mod codec;
mod conf;
mod group;
mod hist;
mod json;
mod pair;
mod pure;
mod sample;
mod scalar;
mod store;
#[cfg(rabe_bn_verif)]
mod tower;

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("transcript") => std::process::exit(conf::transcript()),
        Some("fresh") => std::process::exit(pure::child()),
        _ => {}
    }
    #[allow(unused_mut)]
    let mut props = vec![
        scalar::c01(), scalar::c02(), bigint::c03(), group::c05(), group::c06(), group::c07(), group::c08(), pair::c09(), pair::c10(),
        pair::c11(), json::c12(), json::c14(), bytes::c15(), sample::c16(), hist::c17(1, &["store-and-reload goes through bincode"]), pure::c19(),
    ];
    #[cfg(rabe_bn_verif)]
    props.push(tower::c04());
    std::process::exit(engine::run::main(props, "harness"));
}
