use crate::engine::Ctx;
use common::Dir;
use whole::Kind;
pub mod common;
mod equiv;
mod gates;
mod copy;
mod lookup;
mod proof;
mod multiopen;
mod pieces;
mod exprs;
mod misc;
mod statement;
mod blinding;
mod setup;
mod history;
mod serial;
mod whole;
mod scale;
mod breadth;
mod products;

pub fn run(p: &str, ctx: &mut Ctx) -> bool {
    match p {
        "P01" => {
            gates::completeness(ctx);
            whole::run(ctx, Dir::Complete, Kind::Gate);
            breadth::run(ctx, Dir::Complete, Kind::Gate);
            scale::complete(ctx, Kind::Gate)
        }
        "P02" => {
            gates::soundness(ctx);
            scale::gates(ctx);
            products::run(ctx, Kind::Gate);
            whole::run(ctx, Dir::Sound, Kind::Gate);
            breadth::run(ctx, Dir::Sound, Kind::Gate);
            whole::repaired(ctx, Kind::Gate)
        }
        "P03" => {
            copy::completeness(ctx);
            whole::run(ctx, Dir::Complete, Kind::Copy);
            breadth::run(ctx, Dir::Complete, Kind::Copy);
            scale::complete(ctx, Kind::Copy);
            scale::product_sizes(ctx, Dir::Complete)
        }
        "P04" => {
            copy::soundness(ctx);
            scale::copies(ctx);
            scale::product_sizes(ctx, Dir::Sound);
            products::run(ctx, Kind::Copy);
            whole::run(ctx, Dir::Sound, Kind::Copy);
            breadth::run(ctx, Dir::Sound, Kind::Copy);
            whole::repaired(ctx, Kind::Copy)
        }
        "P05" => {
            lookup::completeness(ctx);
            whole::run(ctx, Dir::Complete, Kind::Lookup);
            breadth::run(ctx, Dir::Complete, Kind::Lookup);
            scale::complete(ctx, Kind::Lookup)
        }
        "P06" => {
            lookup::soundness(ctx);
            scale::lookups(ctx);
            products::run(ctx, Kind::Lookup);
            whole::run(ctx, Dir::Sound, Kind::Lookup);
            breadth::run(ctx, Dir::Sound, Kind::Lookup);
            whole::repaired(ctx, Kind::Lookup)
        }
        "P07" => {
            proof::altered(ctx);
            whole::altered(ctx)
        }
        "P08" => proof::malformed(ctx),
        "P09" => {
            statement::binding(ctx);
            proof::adaptive(ctx, true)
        }
        "P10" => statement::challenges(ctx),
        "P11" => multiopen::run(ctx),
        "P12" => pieces::keys(ctx),
        "P13" => pieces::rotations(ctx),
        "P14" => pieces::matching(ctx),
        "P15" => exprs::built_in(ctx),
        "P16" => exprs::expressions(ctx),
        "P17" => exprs::mock(ctx),
        "P18" => misc::commitments(ctx),
        "P19" => misc::transcript(ctx),
        "P20" => blinding::run(ctx),
        "P21" => serial::run(ctx),
        "P22" => history::run(ctx),
        "P23" => setup::run(ctx),
        "P24" => whole::shape(ctx),
        "P25" => equiv::run(ctx),
        _ => return false,
    }
    true
}
